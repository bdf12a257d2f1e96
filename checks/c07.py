"""C07 boxes nest exactly"""
import copy

from vlib import gen, large, oracle, ref, sgr

ID = 'C07'
TECHNIQUE = 'runtime monitoring: every output line of nested boxes checked against an independent layout model'
LEVEL_NOTE = ('Exact comparison, trailing white space included, of untrimmed renderings with an independent box layout. '
              'Exploration of seeded random nestings; assurance limited to those generated.')
RULE = ('Random nestings of block elements with random margins, padding, borders, line prefixes and widths, untrimmed output. '
        'Non-trivial: at least two nested blocks, one of them with a border, padding or horizontal margin.')
COUNT = {'quick': 14000, 'thorough': 200000}
REQUIRED = {'bordered blocks': 2000, 'padded blocks': 2000, 'block boxes checked': 10000, 'nested four deep': 500, 'borders and prefixes with escape sequences': 2000, 'real renderings put in a box': 2500}
ASSUMPTIONS = ['Content fits the width left for it; paragraphs, list items and definitions are wrapped, other blocks get short text.']

KIND = {'p': 'Paragraph', 'div': 'Block', 'blockquote': 'BlockQuote', 'ul': 'List', 'ol': 'List', 'li': 'ListItem', 'pre': 'Pre',
        'h1': 'MarkdownHeader', 'h3': 'Header', 'dd': 'DefinitionListItem', 'dt': 'DefinitionListTermHeader', 'dl': 'DefinitionList',
        'section': 'Block', 'ol > li': 'OrderedListItem'}


def rand_box(rng, big=False):
    s = {}
    hi = 9 if big else 3
    if rng.random() < .6:
        s['margin'] = [rng.randint(0, 3) if rng.random() < .6 else 0 for _ in range(4)]
        if rng.random() < .5:
            s['margin'][rng.choice([1, 3])] = rng.randint(0, hi)
    if rng.random() < .6:
        s['padding'] = [rng.randint(0, hi) if rng.random() < .6 else 0 for _ in range(4)]
    if rng.random() < .6:
        s['border'] = [rng.choice(['', '-', '=', '~-', '123']), rng.choice(['', '|', ' |', '!!', 'abc']),
                       rng.choice(['', '-', '_', '-~', '456']), rng.choice(['', '|', '| ', ':', 'xyz'])]
    if rng.random() < .04:
        s[rng.choice(['margin', 'padding'])] = None
    return s


def nodes(rng, depth):
    """blocks only, text where it is wrapped or short"""
    out = []
    for _ in range(rng.randint(1, 3)):
        t = rng.choice(['div', 'section', 'blockquote', 'p', 'p', 'ul', 'ol', 'pre', 'h1', 'h3', 'dl', 'div'])
        short = ' '.join(gen.word(rng, 1, 3) for _ in range(rng.randint(1, 2)))
        long = ' '.join(gen.word(rng, 1, 7) for _ in range(rng.randint(1, 30)))
        if t == 'p':
            out.append(('p', {}, [long] if rng.random() < .9 else ['a b', ('br', {}, []), long]))
        elif t in ('h1', 'h3'):
            out.append((t, {}, [short]))
        elif t == 'pre':
            out.append((t, {}, ['\n'.join(' ' * rng.randint(0, 2) + gen.word(rng, 1, 3) for _ in range(rng.randint(1, 3)))]))
        elif t in ('ul', 'ol'):
            out.append((t, {}, [('li', {}, [long] if depth <= 0 or rng.random() < .5 else nodes(rng, depth - 1))
                                for _ in range(rng.randint(1, 3))]))
        elif t == 'dl':
            out.append((t, {}, [('dt', {}, [short]), ('dd', {}, [long] if depth <= 0 or rng.random() < .5 else nodes(rng, depth - 1))]))
        elif depth <= 0:
            out.append((t, {}, [short]))
        else:
            out.append((t, {}, nodes(rng, depth - 1)))
    return out


def fixed():
    b = ['=', '|', '-', '!']
    out = []
    for margin in ([0, 0, 0, 0], [1, 2, 3, 4], [0, 5, 0, 0], [0, 0, 0, 5]):
        for padding in ([0, 0, 0, 0], [1, 2, 3, 4], [0, 1, 0, 0], [0, 0, 0, 1], [2, 0, 0, 0], [0, 0, 2, 0]):
            for border in (['', '', '', ''], b, ['', '|', '', ''], ['=', '', '', ''], ['', '', '--', ''], ['', '', '', '| ']):
                s = dict(margin=margin, padding=padding, border=border)
                out.append(dict(html='<div><p>%s</p></div>' % ('lorem ipsum dolor sit amet ' * 6),
                                cfg=dict(width=40, optimise=False, renderers={'div': ['Block', s]})))
                out.append(dict(html='<div><blockquote><div><p>%s</p></div></blockquote></div>' % ('lorem ipsum dolor sit amet ' * 3),
                                cfg=dict(width=70, optimise=False, renderers={'div': ['Block', s], 'blockquote': ['BlockQuote', s], 'p': ['Paragraph', s]})))
    out += large.cases('margin', 'padding', 'border')
    return out


def make(rng, i, tier):
    r = {}
    for tag, kind in KIND.items():
        s = rand_box(rng, rng.random() < .1) if rng.random() < .5 else {}
        if s or tag == 'section':
            r[tag] = [kind, s]
    if rng.random() < .3:
        r.setdefault('blockquote', ['BlockQuote', {}])[1]['line_template'] = rng.choice(['> {}', '>> {}', '{}', '| {} |', '{} <', '{{{}}} ', '}}{}', '{{}} {}'])
    if rng.random() < .3:
        r.setdefault('p', ['Paragraph', {}])[1].update(line_template=rng.choice(['{}', ': {}', '[{}]', '{{ {} }}']),
                                                       justification=rng.choice(['left', 'full', 'right', 'center']))
    cfg = dict(optimise=False, renderers=r)
    w = rng.choice([40, 67, 80, 100, 120])
    if rng.random() < .5:
        cfg['width'] = w
    else:
        cfg['box'] = dict(width=w, margin=gen.margins(rng, 6))
        if rng.random() < .4:
            cfg['box']['padding'] = gen.margins(rng, 4)
    tree = nodes(rng, rng.choice([1, 2, 3, 4]))
    case = dict(html=gen.serialize(tree, rng, rng.choice([0, .5])), cfg=cfg)
    if rng.random() < .2:
        case['coloured'] = rng.randint(1, 8)
    if rng.random() < .35:
        s = dict(dict(margin=[0] * 4), **rand_box(rng))
        if rng.random() < .4:
            s['line_template'] = rng.choice(['> {}', '{}', '| {} |', '{} <', '{{{}}} '])
        case['around'] = s
    return case


def coloured(cfg, n):
    """the same borders and line prefixes with escape sequences around them"""
    cfg = copy.deepcopy(cfg)
    on, off = '\x1b[%dm' % (30 + n), '\x1b[39m'
    for spec in cfg.get('renderers', {}).values():
        s = spec[1]
        if n & 1 and 'border' in s:
            # the top and bottom borders have one character for each line
            s['border'] = [''.join(on + c + off for c in b) if k in (0, 2) else b and on + b + off for k, b in enumerate(s['border'])]
        if n & 2 and 'line_template' in s:
            s['line_template'] = on + s['line_template'].replace('{}', off + '{}') if s['line_template'].startswith('> ') else on + s['line_template'] + off
    return cfg


def around(html, cfg, s, obs):
    """A document in one more box: its own rendering for the narrower width, inside that box.  No model of the content."""
    template = s.get('line_template')
    margin, padding, border = (s.get(k) or [0] * 4 for k in ('margin', 'padding', 'border'))
    border = s.get('border') or [''] * 4
    left, right = template.format('\0').split('\0') if template else ('', '')
    width = cfg.get('width') or 67
    outer = width - margin[1] - margin[3]
    inner = outer - len(border[1]) - len(border[3]) - padding[1] - padding[3] - len(left) - len(right)
    if inner < 1:
        return None
    # where the page has a box of its own it is left out
    plain = {k: v for k, v in cfg.items() if k not in ('box', 'width')}
    lines = oracle.text(html, dict(plain, width=inner), obs).split('\n')
    if template and lines[-1] == '':
        lines.pop()
    if template and not lines:
        lines = ['']
    elif template:
        lines = [left + l + right for l in lines]
    if max(map(len, lines)) > inner + len(left) + len(right):
        obs.count('cases with a box that had no room, not judged')
        return None
    room = outer - len(border[1]) - len(border[3])
    lines = [' ' * padding[3] + l for l in lines]
    lines = [''] * padding[0] + lines + [''] * padding[2]
    lines = [border[3] + l + ' ' * (room - len(l)) + border[1] for l in lines]
    lines = [c * outer for c in border[0]] + lines + [c * outer for c in border[2]]
    expected = '\n' * margin[0] + '\n'.join(' ' * margin[3] + l for l in lines) + '\n' * margin[2]
    cfg = dict(plain, width=width, renderers=dict(cfg.get('renderers') or {}, **{'x-box': ['BlockQuote' if template else 'Block', s]}))
    actual = oracle.text('<x-box>%s</x-box>' % html, cfg, obs)
    obs.count('real renderings put in a box')
    return oracle.first_difference(expected, actual)


def judge(case, obs):
    html, cfg = case['html'], case['cfg']
    if case.get('around') is not None:
        message = around(html, cfg, case['around'], obs)
        if message:
            return 'put in a box with %r: %s' % (case['around'], message)
    if case.get('coloured'):
        obs.count('borders and prefixes with escape sequences')
        actual = oracle.text(html, coloured(cfg, case['coloured']), obs)
        model = ref.render(html, cfg)
        message = oracle.first_difference(model.text, sgr.strip(actual))
    else:
        message, actual, model = oracle.like_model(html, cfg, obs, exact=True)
    special = 0
    for node, kind, outer, inner in model.boxes:
        obs.count('block boxes checked')
        s = Style.of(model, cfg, node)
        if any(s['border']):
            obs.count('bordered blocks')
            special += 1
        if any(s['padding'] or []):
            obs.count('padded blocks')
            special += 1
        if any((s['margin'] or [0])[1::2]):
            obs.count('blocks with horizontal margins')
            special += 1
    depth = max([0] + [_depth(b[0]) for b in model.boxes])
    obs.high('nesting depth', depth)
    if depth >= 4:
        obs.count('nested four deep')
    if model.clamped:
        # the property speaks of boxes whose content fits
        obs.count('cases with a box that had no room, not judged')
        return None
    obs.nontrivial(depth >= 2 and special)
    return message


class Style:
    @staticmethod
    def of(model, cfg, node):
        return ref.Model(cfg).style(node)[1]


def _depth(n):
    d = 0
    while n.parent is not None:
        d += 1
        n = n.parent
    return d
