"""C12 list items are marked, numbered and aligned at any depth"""
import re

from vlib import gen, large, oracle, ref

ID = 'C12'
TECHNIQUE = 'runtime monitoring: every line of rendered lists checked against an independent layout of the list tree, plus a marker and alignment monitor'
LEVEL_NOTE = ('Line-by-line comparison (modulo trailing white space) with an independent list layout, and a direct monitor of markers and '
              'alignment on lists of unique tokens. Exploration of seeded random list trees, item lengths, numbering settings and source layouts.')
RULE = ('Random trees of ul, ol and dl with nested lists, paragraphs, line breaks and white space. Non-trivial: a nested list or an '
        'item of several lines.')
COUNT = {'quick': 14000, 'thorough': 250000}
REQUIRED = {'items': 20000, 'items of several lines': 5000, 'nested lists': 5000, 'markers checked directly': 10000}


def fixed():
    out = []
    li = lambda *k: ''.join('<li>%s</li>' % x for x in k)
    docs = ['<ul>%s</ul>' % li('a', 'b', 'c'), '<ol>%s</ol>' % li('a', 'b', 'c'), '<ol> <li>a</li> <li>b</li>\n<li>c</li> </ol>',
            '<ol>\n  %s\n</ol>' % '\n  '.join(['<li>x</li>'] * 12), '<ol>%s</ol>' % li(*['word ' * 30] * 11),
            '<ul>%s</ul>' % li('a<ul>%s</ul>' % li('b<ul>%s</ul>' % li('c<ol>%s</ol>' % li('d', 'e ' * 60)))),
            '<ul>%s</ul>' % li('a<br>b<br/>c', '<p>one two</p><p>three</p>', '<p>only</p>'),
            '<ol>%s</ol>' % li('<p>p</p><ul>%s</ul><p>q</p>' % li('r', 's'), 't'),
            '<ul><li>a</li>text<li>b</li></ul>', '<ol><li>a</li><p>x</p><li>b</li></ol>', '<ol><li>a<ol><li>b</li><li>c</li></ol></li><li>d</li></ol>',
            '<dl><dt>t</dt><dd>d1</dd><dd>d2 ' + 'w ' * 80 + '</dd><dt>u</dt><dd>e</dd></dl>', '<li>alone</li>', '<ul><li></li><li> </li></ul>',
            '<ol>' + '<li>y</li>' * 101 + '</ol>', '<ul><li>a\n\n<ul>\n<li>b</li>\n</ul>\n\n</li>\n<li>c</li></ul>',
            '<ol><li>' + 'z' * 200 + '</li></ol>', '<ul><li>x<em>y</em> z</li></ul>']
    for d in docs:
        for cfg in ({}, dict(width=20), dict(renderers={'ol > li': ['OrderedListItem', dict(start_index=0, step=1)]}),
                    dict(renderers={'ol > li': ['OrderedListItem', dict(start_index=98, step=7)], 'li': ['ListItem', dict(line_template='--> {}')]}),
                    dict(renderers={'ol > li': ['OrderedListItem', dict(start_index=5, step=-3, line_template='({0}) {1}')]}),
                    dict(renderers={'li': ['ListItem', dict(initial_indent=2, subsequent_indent=4, justification='full')]})):
            out.append(dict(html=d, cfg=cfg))
    out += large.cases('<ol', '<ul', '<li', '<dd', '<dl')
    return out


def items(rng, depth, d, tag):
    """a list; texts are inline markup"""
    kids = []
    for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 12 if rng.random() < .1 else 5])):
        x = rng.random()
        if depth <= 0 or x < .5:
            kids.append(('li', {}, d.inline(rng.choice([0, 0, 1]))))
        elif x < .7:
            kids.append(('li', {}, d.inline(0) + [items(rng, depth - 1, d, rng.choice(['ul', 'ol']))] +
                         (d.inline(0) if rng.random() < .3 else [])))
        elif x < .85:
            k = [('p', {}, d.inline(1)) for _ in range(rng.randint(1, 3))]
            if rng.random() < .4:
                k.insert(rng.randint(0, len(k)), items(rng, depth - 1, d, rng.choice(['ul', 'ol'])))
            kids.append(('li', {}, k))
        elif x < .93:
            kids.append(('li', {}, [items(rng, depth - 1, d, rng.choice(['ul', 'ol']))]))
        else:
            kids.append(('li', {}, [dl(rng, depth - 1, d)]))
    if rng.random() < .05:
        kids.insert(rng.randint(0, len(kids)), rng.choice(['stray', ('p', {}, ['stray']), ('div', {}, ['stray'])]))
    return (tag, {}, kids)


def dl(rng, depth, d):
    kids = []
    for _ in range(rng.randint(1, 3)):
        kids.append(('dt', {}, [d.text(rng.randint(1, 3))]))
        for _ in range(rng.choice([0, 1, 1, 2])):
            k = d.inline(0)
            if depth > 0 and rng.random() < .4:
                k.append(items(rng, depth - 1, d, rng.choice(['ul', 'ol'])))
            kids.append(('dd', {}, k))
    return ('dl', {}, kids)


def make(rng, i, tier):
    if i % 5 == 0:
        return plain(rng)
    d = gen.Doc(rng, wrapped=.06, words=(1, rng.choice([2, 8, 40])), br=rng.choice([0, .1, .3]), punct=rng.choice([0, .15]), longword=rng.choice([0, 0, .05]))
    nodes = []
    for _ in range(rng.randint(1, 2)):
        if rng.random() < .3:
            nodes.append(('p', {}, ['before']))
        nodes.append(items(rng, rng.choice([0, 1, 2, 3]), d, rng.choice(['ul', 'ol'])) if rng.random() < .85 else dl(rng, 2, d))
    if rng.random() < .2:
        nodes.append(('p', {}, ['after']))
    if rng.random() < .1:
        nodes = [(rng.choice(['div', 'blockquote']), {}, nodes)]
    cfg = {}
    if rng.random() < .7:
        cfg['width'] = rng.choice([20, 30, 40, 67, 67, 80, 120])
    r = {}
    if rng.random() < .3:
        r['ol > li'] = ['OrderedListItem', dict(start_index=rng.choice([0, 1, 2, 8, 98, 995, -2]), step=rng.choice([1, 1, 2, 5, 100, -1, 0]))]
        if rng.random() < .3:
            r['ol > li'][1]['line_template'] = rng.choice(['{0}) {1}', '({0}) {1}', '{0} {1}', '#{0}: {1}', '{{{0}}} {1}', '{}) {}', '{0:>3} {1}', '{0:03d} {1}', '{1}', '({}'])
    if rng.random() < .3:
        r['li'] = ['ListItem', dict(line_template=rng.choice(['* {}', '- {}', '-> {}', '  + {}', '\u2022 {}', 'o   {}', '{{}} {}', '{{ {} }}']))]
    if rng.random() < .2:
        r['dd'] = ['DefinitionListItem', dict(line_template=rng.choice([': {}', '    {}', '=> {}', ':: {}', '{{{}']))]
    if rng.random() < .2:
        r.setdefault('li', ['ListItem', {}])[1].update(gen.paragraph_settings(rng))
        r['li'][1].pop('line_template', None) if rng.random() < .5 else None
    if r:
        cfg['renderers'] = r
    return dict(html=gen.serialize(nodes, rng, rng.choice([0, .3, .9])), cfg=cfg)


def plain(rng):
    """a list tree of single unique tokens: markers and columns can be read off directly"""
    count = [0]

    def tok():
        count[0] += 1
        return 'k%dk' % count[0]

    def build(depth):
        tag = rng.choice(['ul', 'ol'])
        kids = []
        for _ in range(rng.randint(1, 4)):
            k = [' '.join(tok() for _ in range(rng.choice([1, 2, 20])))]
            if depth > 0 and rng.random() < .5:
                k.append(build(depth - 1))
            kids.append(('li', {}, k))
        return (tag, {}, kids)
    tree = build(rng.choice([1, 2, 4]))
    start, step = rng.choice([(1, 1), (1, 1), (0, 1), (9, 1), (97, 2), (5, 5)])
    bullet = rng.choice(['* ', '- ', '+  '])
    cfg = dict(width=rng.choice([50, 67, 90]), renderers={
        'ol > li': ['OrderedListItem', dict(start_index=start, step=step)], 'ul > li': ['ListItem', dict(line_template=bullet + '{}')]})
    return dict(html=gen.serialize([tree], rng, rng.choice([0, .3, .9])), cfg=cfg, tree=tree, start=start, step=step, bullet=bullet)


def judge(case, obs):
    html, cfg = case['html'], case['cfg']
    message, actual, model = oracle.like_model(html, cfg, obs)
    lists = [n for n, _ in model.rendered if n.tag in ('ul', 'ol', 'dl')]
    obs.count('lists', len(lists))
    nested = sum(1 for n in lists if n.parent.tag in ('li', 'dd'))
    obs.count('nested lists', nested)
    several = 0
    for n, _ in model.rendered:
        if n.tag in ('li', 'dd'):
            obs.count('items')
            if len(n.children) > 1 or any(c.tag is None and len(c.text) > 60 for c in n.children):
                several += 1
    obs.count('items of several lines', several)
    obs.nontrivial(nested or several)
    if model.clamped:
        return None
    if 'tree' in case:
        message = columns(case, actual, obs) or message
    return message


def columns(case, actual, obs):
    """every token stands in its item's column, first one behind the marker"""
    lines = actual.split('\n')
    at = {}
    for l in lines:
        for m in re.finditer(r'k\d+k', l):
            at[m.group()] = (l, m.start())

    def check(tree, base):
        tag, _, kids = tree
        for pos, (_, _, k) in enumerate(kids):
            marker = '%d. ' % (case['start'] + pos * case['step']) if tag == 'ol' else case['bullet']
            toks = k[0].split()
            for j, t in enumerate(toks):
                if t not in at:
                    return 'item text %s is missing' % t
                line, col = at[t]
                head = line[:base + len(marker)]
                want = ' ' * base + (marker if j == 0 else ' ' * len(marker))
                first = re.search(r'k\d+k', line).group() == t
                obs.count('markers checked directly' if j == 0 else 'further words checked directly')
                if j == 0 and head != want:
                    return 'item %s: line %r should start with %r' % (t, line, want)
                if j and first and head != want:
                    return 'continuation of item %s: line %r should start with %r' % (toks[0], line, want)
            if len(k) > 1:
                m = check(k[1], base + len(marker))
                if m:
                    return m
    return check(case['tree'], 0)
