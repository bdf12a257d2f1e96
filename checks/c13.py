"""C13 every line of a quotation carries its prefix"""
import re

from vlib import gen, oracle, ref

ID = 'C13'
TECHNIQUE = 'runtime monitoring: every line of rendered quotations checked by a prefix monitor and against an independent layout'
LEVEL_NOTE = ('A direct monitor requires the prefix, once per level, on every line between the margins, the wrap width, and the spacing of '
              'quoted paragraphs; an independent layout is compared line by line. Exploration of seeded random quotations.')
RULE = ('Random quotations of paragraphs, lists, headings, preformatted text and nested quotations, random widths and source white space. '
        'Non-trivial: several blocks, or nesting.')
COUNT = {'quick': 40000, 'thorough': 600000}
REQUIRED = {'quoted lines checked': 50000, 'nested quotations': 4000, 'paragraph gaps checked': 3000}


def fixed():
    out = []
    q = lambda s: '<blockquote>%s</blockquote>' % s
    p = lambda s: '<p>%s</p>' % s
    for h in (q(p('a')), q(p('a') + p('b')), q(p('a') + p('b') + p('c')), q(q(p('a'))), q(p('a') + q(p('b') + p('c')) + p('d')),
              q('bare'), q('bare ' + p('a')), q(p('a') + 'bare'), q('\n' + p('a') + '\n' + p('b') + '\n'), q(p('w ' * 100)),
              q(q(q(p('w ' * 100)))), q('<ul><li>a</li><li>b</li></ul>'), q('<pre>a\n\n  b</pre>'), q(p('a') + '<pre>x\n\ny</pre>' + p('b')),
              q(p('a<br>b<br><br>c')), q('<h2>t</h2>' + p('a')), q(''), p('x') + q(p('a')) + p('y'), q(p('a')) * 3,
              q('<div>' + p('a') + p('b') + '</div>'), q(p('z' * 150)), q(p('a <em>b</em>') + '<dl><dt>t</dt><dd>d</dd></dl>')):
        for cfg in ({}, dict(width=24), dict(renderers={'blockquote': ['BlockQuote', dict(line_template='| {}')]}),
                    dict(renderers={'p': ['Paragraph', dict(justification='full')]})):
            out.append(dict(html=h, cfg=cfg))
    return out


def quote(rng, d, depth):
    kids = []
    style = rng.random()
    for _ in range(rng.randint(1, 4)):
        x = rng.random()
        if style < .35 or x < .5:
            kids.append(('p', {}, d.inline(rng.choice([0, 1]))))
        elif x < .7 and depth > 0:
            kids.append(quote(rng, d, depth - 1))
        elif x < .8:
            kids.append((rng.choice(['ul', 'ol']), {}, [('li', {}, d.inline(0)) for _ in range(rng.randint(1, 3))]))
        elif x < .88:
            kids.append(d.pre())
        elif x < .92:
            kids.append(('h%d' % rng.randint(1, 3), {}, [d.text(2)]))
        elif x < .96:
            kids.append(('div', {}, [('p', {}, d.inline(0)) for _ in range(rng.randint(1, 2))]))
        else:
            kids.append(('p', {}, ['one', ('br', {}, []), 'two']))
    return ('blockquote', {}, kids)


def make(rng, i, tier):
    if i % 4 == 0:
        return plain(rng)
    d = gen.Doc(rng, wrapped=.06, words=(1, rng.choice([3, 10, 40])), br=rng.choice([0, .1]), longword=rng.choice([0, .03]))
    nodes = [quote(rng, d, rng.choice([0, 1, 2, 3]))]
    if rng.random() < .3:
        nodes.insert(0, ('p', {}, ['before']))
    if rng.random() < .3:
        nodes.append(('p', {}, ['after']))
    if rng.random() < .1:
        nodes = [('div', {}, nodes)]
    if rng.random() < .1:
        nodes = [('ul', {}, [('li', {}, nodes)])]
    cfg = {}
    if rng.random() < .7:
        cfg['width'] = rng.choice([20, 30, 40, 67, 80, 120])
    r = {}
    if rng.random() < .25:
        r['blockquote'] = ['BlockQuote', dict(line_template=rng.choice(['> {}', '| {}', '>{}', '    {}', '>> {}', '# {} #', '{{ {}', '}}{}{{']))]
    if rng.random() < .25:
        r['p'] = ['Paragraph', gen.paragraph_settings(rng)]
        r['p'][1].pop('capitalized', None)
    if rng.random() < .15:
        r.setdefault('blockquote', ['BlockQuote', {}])[1]['margin'] = gen.margins(rng, 4)
    if r:
        cfg['renderers'] = r
    return dict(html=gen.serialize(nodes, rng, rng.choice([0, .3, .9])), cfg=cfg)


def plain(rng):
    """paragraphs of unique tokens and nested quotations only"""
    count = [0]

    def para():
        out = []
        for _ in range(rng.choice([1, 2, 30])):
            count[0] += 1
            out.append('k%dk' % count[0])
        return ('p', {}, [' '.join(out)])

    def build(depth):
        kids = [para()]
        for _ in range(rng.randint(0, 4)):
            kids.append(build(depth - 1) if depth > 0 and rng.random() < .4 else para())
        if rng.random() < .2 and depth > 0:
            kids.insert(0, build(depth - 1))
        return ('blockquote', {}, kids)
    tree = build(rng.choice([0, 1, 2, 3]))
    cfg = dict(width=rng.choice([40, 67, 67, 90]))
    prefix = '> '
    if rng.random() < .3:
        prefix = rng.choice(['| ', '>> ', '% '])
        cfg['renderers'] = {'blockquote': ['BlockQuote', dict(line_template=prefix + '{}')]}
    return dict(html=gen.serialize([tree], rng, rng.choice([0, .3, .9])), cfg=cfg, tree=tree, prefix=prefix)


def judge(case, obs):
    html, cfg = case['html'], case['cfg']
    message, actual, model = oracle.like_model(html, cfg, obs)
    quotes = [n for n, _ in model.rendered if n.tag == 'blockquote']
    nested = sum(1 for n in quotes if any(a.tag == 'blockquote' for a in _up(n)))
    obs.count('nested quotations', nested)
    obs.nontrivial(nested or sum(len(n.elements()) for n in quotes) > 1)
    if model.clamped:
        return None
    if 'tree' in case:
        message = direct(case, actual, obs) or message
    return message


def _up(n):
    n = n.parent
    while n is not None:
        yield n
        n = n.parent


def direct(case, actual, obs):
    prefix = case['prefix']
    lines = actual.split('\n')
    while lines and not lines[0].strip():
        lines.pop(0)
    while lines and not lines[-1].strip():
        lines.pop()
    width = case['cfg']['width']
    level = {}

    def walk(tree, d):
        for k in tree[2]:
            if k[0] == 'p':
                for t in k[2][0].split():
                    level[t] = d
            else:
                walk(k, d + 1)
    walk(case['tree'], 1)
    seen = set()
    for n, l in enumerate(lines):
        obs.count('quoted lines checked')
        if not l.startswith(prefix.rstrip()):
            return 'line %d of the quotation has no prefix: %r' % (n + 1, l)
        if len(l) > width:
            return 'line %d is wider than %d: %r' % (n + 1, width, l)
        toks = re.findall(r'k\d+k', l)
        for t in toks[:1]:
            want = prefix * level[t]
            if not re.fullmatch(re.escape(want) + 'k.*', l):
                return 'line %r should start with %r' % (l, want)
        seen.update(toks)
    if set(level) - seen:
        return 'text lost: %s' % sorted(set(level) - seen)[:5]
    kids = case['tree'][2]
    if (kids[0][0] == 'p' and not re.search(r'k\d+k', lines[0])) or (kids[-1][0] == 'p' and not re.search(r'k\d+k', lines[-1])):
        return 'an empty line at the start or end of the quotation: %r ... %r' % (lines[0], lines[-1])
    # paragraphs following one another: exactly one empty line with the prefixes
    def gaps(tree, d):
        for a, b in zip(tree[2], tree[2][1:]):
            if a[0] == 'p' and b[0] == 'p':
                last, first = a[2][0].split()[-1], b[2][0].split()[0]
                i = next(i for i, l in enumerate(lines) if last in l.split())
                j = next(i for i, l in enumerate(lines) if first in l.split())
                obs.count('paragraph gaps checked')
                between = lines[i + 1:j]
                want = (prefix * d).rstrip()
                if between != [want]:
                    return 'between paragraphs %s and %s: %r' % (last, first, between)
        for k in tree[2]:
            if k[0] != 'p':
                m = gaps(k, d + 1)
                if m:
                    return m
    return gaps(case['tree'], 1)
