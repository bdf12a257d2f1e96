"""C15 inline markup wraps exactly its content and content is never code"""
import html as _html

from vlib import gen, large, oracle, ref

ID = 'C15'
TECHNIQUE = 'runtime monitoring: rendered inline markup compared with the composition of templates over the element tree, with hostile data in every position'
LEVEL_NOTE = ('A direct composer predicts the exact output for inline trees (no wrapping), an independent reference renderer predicts hostile data in '
              'all blocks, links, images and entries. Exploration of seeded random trees; format characters, entities and markup-like data are frequent.')
RULE = ('Random nestings of inline elements with hostile text (braces, backslashes, percent signs, markup-like text, entities), default and configured '
        'templates, plus hostile data in blocks, titles, alternative texts and targets. Non-trivial: nesting of two, or hostile data.')
COUNT = {'quick': 90000, 'thorough': 1200000}
REQUIRED = {'composed directly': 10000, 'hostile pieces': 50000, 'line breaks': 3000, 'configured templates': 3000, 'hostile attributes': 3000}

DEFAULT = {'em': '_{}_', 'i': '_{}_', 'strong': '**{}**', 'b': '**{}**', 'u': '_{}_', 'ins': '_{}_', 's': '~~{}~~', 'del': '~~{}~~',
           'code': '`{}`', 'span': '{}', 'kbd': '{}', 'x-y': '{}'}
KIND = {'em': 'Em', 'i': 'Em', 'strong': 'Strong', 'b': 'Strong', 'u': 'Underline', 'ins': 'Underline', 's': 'Strikethrough', 'del': 'Strikethrough',
        'span': 'Inline'}
TEMPLATES = ['<{}>', '/{}/', '{} ', '[[{}]]', '{{{}}}', '%s{}', '\\{}\\n', '{0}', '\u201c{}\u201d', 'x{}']
HOSTILE = ['{}', '{0}', '{', '}', '{content}', '{title}', '{href}', '{description}', '{link_reference}', '{0.__class__}', '{!r}', '{:>9}', '{{', '}}', '{{}}',
           '%s', '%(x)s', '%', '\\', '\\1', '\\g<0>', '\\n', '\\t', '\\\\', '$0', '$1', '${x}', '&', '<', '>', '<b>', '</b>', '</p>', '<br>', '&lt;', '&amp;', '&#x41;',
           '"', "'", '_', '*', '**', '~~', '`', '```', '#', '](', ')', '[1]', '\u00e9', '\u4e2d\u6587', '\U0001f600', 'a\u0301', '\u00a0', '\u00ad', '\u200b', '|', '<!--', '-->',
           '&copy;', '&nbsp', '\u2028x'.replace('\u2028', ''), '\u00a0'.join('ab'), '\u20ac', '\ud7ff', 'A&B;', '&unknown;', '%20', '%2F', '%7B', '%C3%A9', '%25', 'a+b', '?', ';', '//', '..', '%00', 'A%']


def piece(rng):
    return rng.choice(HOSTILE) if rng.random() < .6 else gen.word(rng, 1, 5)


def text(rng, n=4):
    return rng.choice([' ', '']).join(piece(rng) for _ in range(rng.randint(1, n))) if rng.random() < .7 else \
        ' '.join(piece(rng) for _ in range(rng.randint(1, n)))


def tree(rng, depth):
    out = []
    for _ in range(rng.randint(1, 3)):
        x = rng.random()
        if depth <= 0 or x < .4:
            if out and isinstance(out[-1], str):
                continue
            t = text(rng)
            out.append(rng.choice(['', ' ']) + t + rng.choice(['', ' ']))
        elif x < .47:
            out.append(['br', []])
        elif x < .5:
            out.append(['x-br', [] if rng.random() < .7 else [text(rng)]])
        else:
            out.append([rng.choice(list(DEFAULT)), tree(rng, depth - 1) if rng.random() < .95 else []])
    return out


def to_html(nodes):
    return ''.join(_html.escape(n) if isinstance(n, str) else '<br>' if n[0] == 'br' else '<%s>%s</%s>' % (n[0], to_html(n[1]), n[0]) for n in nodes)


def fixed():
    out = []
    for tag in list(DEFAULT):
        for h in HOSTILE:
            out.append(dict(tree=[[tag, [h]]], templates={}))
    for a in DEFAULT:
        for b in DEFAULT:
            out.append(dict(tree=['x ', [a, ['y', [b, ['z']], ' w']], ' v'], templates={}))
            out.append(dict(tree=[[a, ['y']], [b, ['z']]], templates={}))
    out += large.cases('title')
    return out


def make(rng, i, tier):
    if i % 3 == 2:
        return blocks(rng)
    t = {}
    if rng.random() < .4:
        for tag in rng.sample(list(KIND), rng.randint(1, 4)):
            t[tag] = rng.choice(TEMPLATES)
    return dict(tree=tree(rng, rng.choice([1, 2, 3, 5])), templates=t)


def blocks(rng):
    """hostile data in all places that show text, attribute values or targets"""
    d = gen.Doc(rng, wrapped=.06, special=.5, links=.3, images=.3, words=(1, 5), depth=1, children=(1, 2), longword=0, maxlen=5, br=.05,
                href=lambda r: r.choice(['/', 'http://x/', 'gopher://h/', '']) + ''.join(r.choice(HOSTILE).strip() for _ in range(r.randint(0, 2))))
    cfg = dict(width=rng.choice([67, 120, 300]), link_placement=rng.choice(['inline', 'footer', 'after_block']),
               image_placement=rng.choice(['inline', 'footer', 'after_block']))
    nodes = d.document()
    return dict(html=gen.serialize(nodes), cfg=cfg)


def compose(nodes, templates, edge=False):
    """-> what these nodes should render as"""
    s = []
    for k, n in enumerate(nodes):
        if isinstance(n, str):
            t = n
            # the white space between text and a line break goes, as at the edge of the page
            if (k == 0 and edge) or (k and nodes[k - 1][0] == 'br' and not isinstance(nodes[k - 1], str)):
                t = t.lstrip(' ')
            if (k == len(nodes) - 1 and edge) or (k + 1 < len(nodes) and not isinstance(nodes[k + 1], str) and nodes[k + 1][0] == 'br'):
                t = t.rstrip(' ')
            s.append(t)
        elif n[0] in ('br', 'x-br'):
            s.append('\n')
        else:
            inner = compose(n[1], templates)
            t = templates.get(n[0])
            if n[0] == 'code' and '\n' in inner:
                s.append('```\n' + inner + '\n```\n')
            elif t is None:
                a, b = DEFAULT[n[0]].split('{}')
                s.append(a + inner + b)
            else:
                s.append(t.format(inner))
    return ''.join(s)


def judge(case, obs):
    if 'html' in case:
        obs.nontrivial()
        obs.count('hostile attributes')
        return oracle.like_model(case['html'], case['cfg'], obs)[0]
    cfg = dict(renderers={tag: [KIND[tag], dict(template=t)] for tag, t in case['templates'].items()}) if case['templates'] else {}
    if case['templates']:
        obs.count('configured templates')
    html = to_html(case['tree'])
    if 'x-br' in html:
        # another element that a rule renders as a line break, whatever its content
        cfg.setdefault('renderers', {})['x-br'] = 'Break'
    obs.count('hostile pieces', sum(html.count(c) for c in '{}%\\&'))
    obs.count('line breaks', html.count('<br>'))
    cfg['optimise'] = False
    out = oracle.text(html, cfg, obs)
    obs.count('composed directly')
    obs.nontrivial(html.count('</') > 1 or any(c in html for c in '{}%\\&'))
    import re
    squash = lambda ns: [re.sub('[ \t\n]+', ' ', n) if isinstance(n, str) else [n[0], squash(n[1])] for n in ns]
    want = compose(squash(case['tree']), case['templates'], True)
    if out != want:
        return 'expected %r, got %r' % (want, out)
    return None
