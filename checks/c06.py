"""C06 the most specific rule decides, setting by setting"""
from vlib import css, gen, probe, real, ref

ID = 'C06'
TECHNIQUE = 'runtime monitoring: probe renderers report the class and effective settings of every rendered element, judged by an independent cascade'
LEVEL_NOTE = ('Class and complete settings of every element and every link entry of a rendering are observed and compared with a separately written cascade '
              '(specificity, order, setting-wise merge, class defaults). Exploration of random overlapping rule sets.')
RULE = ('Random sets of 2 to 14 rules (renderer, settings, both) with overlapping selectors of all specificities over small trees of ordinary, unknown, link and image elements, '
        'for elements and for link entries, with all placements. Non-trivial: an element matched by at least two rules.')
COUNT = {'quick': 40000, 'thorough': 700000}
REQUIRED = {'elements judged': 150000, 'entries judged': 10000, 'settings decided by specificity': 20000, 'settings decided by order': 10000,
            'renderers decided by specificity': 10000, 'renderers decided by order': 10000, 'default renderers with settings': 1000}
VALUES = ['v%d' % i for i in range(6)] + [0, '', None, False, True, [], 7]
KINDS = ['A', 'B', 'C', 'D']


def fixed():
    out = []
    html = '<p class="c" id="i" n="0">x</p>'
    sels = ['*', 'p', '.c', '#i', 'p.c', 'p#i', '.c#i', 'p.c#i', '[n]', 'p:not(.z)', 'p, #z', '#z, .c', ':first-child', 'p:not(#z)', '.c.c', '.c.c.c', 'p[n][class]', '#i#i']
    for a in sels:
        for b in sels:
            if a != b:
                out.append(dict(html=html, rules=[[a, 'A', {'s0': 'v0'}], [b, 'B', {'s0': 'v1'}]], erules=[], cfg={}))
    for k in ('A', None):
        out.append(dict(html='<x-y n="0">t</x-y><x-y n="1" class="c">t</x-y>', rules=[['', 'B', {'s0': 'v1', 's2': 'v1'}], ['x-y', None, {'s0': 'v2'}], ['.c', k, {'s1': 0}]], erules=[], cfg={}))
    # many rules of one weight for one element
    for n in (5, 9, 16, 40):
        for t in ('x-y', 'p', 'a'):
            html = '<%s class="%s" n="0">t</%s>' % (t, ' '.join('c%d' % i for i in range(n)), t)
            out.append(dict(html=html, rules=[['.c%d' % (i * 7 % n), 'AB'[i % 2] if i % 3 else None, {'s%d' % (i % 3): 'v%d' % i}] for i in range(n)], erules=[], cfg=dict(link_placement='footer', image_placement='inline')))
    return out


def sel(rng, tags):
    t = rng.choice(tags)
    x = rng.random()
    if x < .3:
        s = rng.choice([t, t, '*', '.c', '.d', '#i', t + '.c', t + '#i', '.c.d', t + ':first-child', ':last-child', '[n]', t + '[n]', ':not(.c)', t + ':not(#z)', '#i.c', t + '.c.d', ':not(%s)' % t])
    elif x < .5:
        s = rng.choice(tags + ['.c', '*', '#i']) + rng.choice([' ', ' > ', ' + ', ' ~ ']) + rng.choice([t, '.c', t + '.d', '*', '[n]'])
    elif x < .58:
        # up to five parts
        s = rng.choice(tags)
        for _ in range(rng.choice([2, 2, 3, 4])):
            s += rng.choice([' ', ' ', ' > ', ' + ', ' ~ ', ' ~ ']) + rng.choice(tags + [t, t, t + '.c', '.c', '*'])
    elif x < .75:
        s = ''.join([rng.choice([t, t, '', '*'])] + [rng.choice(['.c', '.d', '.e', ':first-child', '[n]', '[class]', ':nth-child(n)', ':not(.z)', ':not(x)']) for _ in range(rng.randint(1, 12))])
    else:
        s = ', '.join(rng.choice(tags + ['.c', '.d', '#i', t + '.c', '*', t + ' ' + t, '#zz', 'zz']) for _ in range(rng.choice([1, 2, 3])))
    return s


def make(rng, i, tier):
    tags = rng.sample(['p', 'div', 'em', 'x-y', 'kbd', 'a', 'img', 'a', 'li', 'span'], 3)
    links = i % 2 == 0
    if links:
        tags += ['a', 'img']
    n = [0]

    def nodes(depth, ina=False):
        out = []
        for _ in range(rng.randint(1, 4)):
            t = rng.choice(tags)
            a = 'n="%d"' % n[0]
            n[0] += 1
            if rng.random() < .6:
                a += ' class="%s"' % ' '.join(rng.choice('cdez') for _ in range(rng.randint(0, 3)))
            if rng.random() < .3:
                a += ' id="%s"' % rng.choice('ij')
            if t == 'img':
                out.append('<img %s>' % a)
            else:
                out.append('<%s %s>%s</%s>' % (t, a, nodes(depth - 1) if depth and rng.random() < .5 else 't', t))
        return ''.join(out)
    html = nodes(rng.choice([0, 1, 1, 2]))

    def rules(pool, lo, hi):
        out = []
        for _ in range(rng.randint(lo, hi)):
            kind = rng.choice([None, None] + KINDS)
            settings = {rng.choice(['s0', 's1', 's2', 's3']): rng.choice(VALUES) for _ in range(rng.randint(0, 3))}
            if kind is None and not settings:
                settings = {'s0': 'v0'}
            out.append([sel(rng, pool), kind, settings if settings or rng.random() < .5 else None])
        return out
    r = rules(tags, 2, rng.choice([4, 8, 14]))
    if rng.random() < .5:
        r.insert(rng.randint(0, len(r)), ['', rng.choice(KINDS), rng.choice([None, {}, {'s0': 'v5', 's3': 'v5'}])])
    e = rules(['a', 'img', 'a', '*'], 1, 6) if links else []
    cfg = dict(link_placement=rng.choice(['footer', 'after_block', 'inline', 'footer']), image_placement=rng.choice(['inline', 'footer', 'after_block', 'footer']))
    return dict(html=html, rules=r, erules=e, cfg=cfg)


def setup():
    global CLASSES, ENTRIES, NAMES
    b = real.cls('Renderer')
    A = probe.make('Renderer', 'A', dict(s0='A0', s1='A1'))
    B = probe.make('Renderer', 'B', dict(s0='B0', s2='B2'))
    C = probe.make('Renderer', 'C', dict(s1='C1'), bases=(A,))
    D = probe.make('Renderer', 'D')
    CLASSES = dict(A=A, B=B, C=C, D=D)
    # every built-in rule's renderer is observed too
    NAMES = {}
    for kind in ('Renderer', 'ExtractedLink', 'ExtractedImageLink') + tuple(k for _, (k, _) in ref.RULES if k):
        if kind not in NAMES:
            NAMES[kind] = probe.make(kind, kind, passive=False)


def cascade(node, rules, obs, what):
    hits = []
    for i, (s, kind, settings) in enumerate(rules):
        ok, sp = css.match(node, css.parse(s))
        if ok:
            hits.append((sp, i, kind, settings or {}))
    by = sorted(hits, key=lambda h: h[:2])
    kind, out = None, {}
    for _, _, k, s in by:
        kind = k or kind
        out.update(s)
    named = [h for h in by if h[2]]
    if len(named) > 1:
        obs.count('renderers decided by ' + ('order' if named[-1][0] == named[-2][0] else 'specificity'))
    for key in out:
        given = [h for h in by if key in h[3]]
        if len(given) > 1:
            obs.count('settings decided by ' + ('order' if given[-1][0] == given[-2][0] else 'specificity'))
    return kind, out, len(hits)


def merged(builtin, custom):
    d = {}
    for s, (kind, settings) in builtin:
        d[s] = (kind, settings)
    for s, kind, settings in custom:
        d[s] = (kind, settings)
    return d


def judge(case, obs):
    cfg = case['cfg']
    rules = merged(ref.RULES, [r for r in case['rules'] if r[0]])
    erules = merged(ref.EXTRACTED_RULES, case['erules'])
    if any(erules[s][0] is None for s in ('a', 'img')):
        # (a rule without a renderer in place of the built-in one leaves links without any)
        obs.count('cases without a renderer for links, not judged')
        return None
    default = next(((k, s) for sel_, k, s in reversed(case['rules']) if sel_ == ''), ('Renderer', None))
    byname = dict(NAMES)
    byname.update(CLASSES)

    def spec(kind, settings):
        if settings is None and kind is not None:
            return byname[kind]
        return (None if kind is None else byname[kind], settings if settings is None else dict(settings))
    custom = {r[0]: spec(*rules[r[0]]) for r in case['rules'] if r[0]}
    for s, (kind, settings) in ref.RULES:
        custom.setdefault(s, spec(kind, settings))
    # the caller's rules replace the built-in ones in their places, the others follow
    ordered = {s: custom[s] for s in rules}
    ordered[''] = spec(*default)
    ecustom = {s: spec(*erules[s]) for s in erules}
    result, events = probe.run(case['html'], renderers=ordered, extracted_link_renderers=ecustom, **cfg)
    root = ref.tree(case['html'])
    nodes = {x.attrs['n']: x for x in root.walk()}
    owed = {}
    many = 0
    rlist = [(s, k, v) for s, (k, v) in rules.items()]
    elist = [(s, k, v) for s, (k, v) in erules.items()]
    want_entries = {}
    for n, node in nodes.items():
        kind, settings, hits = cascade(node, rlist, obs, 'element')
        many += hits > 1
        if kind is None:
            kind, settings = default[0], dict(default[1] or {}, **settings)
            if settings:
                obs.count('default renderers with settings')
        owed[n] = (kind, dict(probe.declared(byname[kind]), **settings))
        if node.tag in ('a', 'img') and cfg['link_placement' if node.tag == 'a' else 'image_placement'] != 'inline':
            kind, settings, _ = cascade(node, elist, obs, 'entry')
            if kind is None:
                kind, settings = erules['a']
            want_entries[n] = (kind, dict(probe.declared(byname[kind]), **(settings or {})))
    for name, tag, settings, _, _ in events:
        n = tag.attrs['n']
        # (elements inside an extracted link are rendered for its entry again)
        for where, what in sorted(((owed, 'element'), (want_entries, 'entry')), key=lambda x: 'done ' + n in x[0]):
            if n in where and where[n][0] == name and same(name, where[n][1], settings, nodes[n]):
                obs.count('elements judged' if what == 'element' else 'entries judged')
                where['done ' + n] = True
                break
        else:
            return 'n=%s (<%s>) was rendered by %s with %s; expected %s%s' % (
                n, nodes[n].tag, name, _show(settings), _show(owed[n]), ' or as an entry ' + _show(want_entries[n]) if n in want_entries else '')
    for n in nodes:
        if 'done ' + n not in owed:
            return 'n=%s (<%s>) was not rendered as expected: %s' % (n, nodes[n].tag, _show(owed[n]))
        if n in want_entries and 'done ' + n not in want_entries:
            return 'the entry of n=%s (<%s>) was not rendered as expected: %s' % (n, nodes[n].tag, _show(want_entries[n]))
    obs.nontrivial(many)
    return None


def same(name, want, got, node):
    ignored = ('template',) if name == 'MarkdownHeader' else ('line_template',) if name == 'OrderedListItem' else ()
    if set(want) != set(got):
        return False
    return all(k in ignored or (want[k] == got[k] and type(want[k]) is type(got[k])) or (isinstance(want[k], dict) and want[k] == got[k]) for k in want)


def _show(x):
    return repr(x)[:400]
