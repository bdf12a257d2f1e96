"""C24 each element is rendered once, children first, output used verbatim"""
import re

from vlib import gen, probe, real, ref

ID = 'C24'
TECHNIQUE = 'runtime monitoring: event log of the render calls of caller-supplied renderers, checked offline for exactly-once, order, content composition and verbatim use'
LEVEL_NOTE = ('Caller-supplied renderers of inline and of block kind log every call with the element, the content received and the text returned (unique per call, sometimes empty). The log is '
              'checked offline against the document tree. Exploration of seeded documents, placements and mixtures of renderers.')
RULE = ('Documents with every element, unclosed and unknown ones, links and images under every placement, rendered by renderers that return unique marks, hostile marks or nothing. '
        'Non-trivial: at least three render calls.')
COUNT = {'quick': 24000, 'thorough': 400000}
REQUIRED = {'render calls': 150000, 'entry calls': 12000, 'empty results': 15000, 'contents checked exactly': 100000, 'contents checked': 150000, 'block renderers': 20000, 'inline links': 4000, 'hostile results': 8000}
ASSUMPTIONS = ['Where blocks are involved, white space next to a child\'s output is layout and not compared.', 'The built-in renderers in between are covered by the reference model of the other checks.']

TAGS = ['p', 'div', 'blockquote', 'ul', 'ol', 'li', 'dl', 'dt', 'dd', 'h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'pre', 'code', 'em', 'strong', 'i', 'b', 'u', 'ins', 's', 'del', 'span', 'br', 'a', 'img']
HOSTILE = ['{}', '{0}', '{content}', '%s', '\\1', '<b>', '&amp;', '[1]', '\\', '\u2028', '  ', '\t', '\x1b[1m', 'a\nb', '  x  ']


def fixed():
    docs = ['<p>a <em>b</em> c</p>', '<ul><li>a<li>b</ul>', '<p>x <a href="u">y <b>z</b></a> <img src="i" alt="j"></p>', '<div><p>a</p>b<p>c</p></div>', '<a href="u"><p>x</p></a>', '<p><a href="1">x <a href="2">y</a></a></p>',
            '<a href="1"><img src="2"></a>', '<blockquote><a href="1">x</a></blockquote><p><a href="2">y</a></p>', '<pre> a\n <b>c</b></pre>', '<p>a<br>b</p>', '<x-y><hr>q</x-y>', '<em>' * 20, '', 'text', '<p></p>', '<p>a <a href="1"></a><em></em><img><br></p>']
    out = []
    for d in docs:
        for lp in ('footer', 'inline', 'after_block'):
            for ip in ('footer', 'inline', 'after_block'):
                for kinds in ({}, {'p': 'Block', 'div': 'Block', 'blockquote': 'Block', 'ul': 'Block', 'li': 'Block', 'pre': 'Block'}):
                    out.append(dict(html=d, cfg=dict(link_placement=lp, image_placement=ip), kinds=kinds, empty=[], hostile=None))
                out.append(dict(html=d, cfg=dict(link_placement=lp, image_placement=ip), kinds={}, empty=[0, 3], hostile='{0}'))
                out.append(dict(html=d, cfg=dict(link_placement=lp, image_placement=ip), kinds={}, empty=list(range(40)), hostile=None))
    return out


def make(rng, i, tier):
    d = gen.Doc(rng, wrapped=.06, links=rng.choice([.1, .5]), images=.3, unknown=.15, special=.1, depth=rng.choice([0, 1, 2]), children=(1, 3), words=(1, 4), br=.1, attrs=.1)
    html = gen.serialize(d.document(), rng, rng.choice([0, .4]))
    if rng.random() < .2:
        html = re.sub(r'(</[a-z0-9-]+>\s*)+\Z', '', html)
    if rng.random() < .2:
        for _ in range(rng.choice([1, 3])):
            k = rng.randrange(len(html) + 1)
            html = html[:k] + rng.choice(['</p>', '<em>', '</em>', '<a href="q">', '<div>', '</div>', '<p>', '<a href="q"></a>', '<em></em>', '<p></p>', '<x-y></x-y>', '<li></li>', '<a></a>', '<img>']) + html[k:]
    kinds = {}
    if rng.random() < .6:
        for t in TAGS[:16] + ['a', 'img', 'em', 'x-y']:
            if rng.random() < .6 and (t not in ('a', 'img', 'em', 'x-y') or rng.random() < .1):
                kinds[t] = 'Block'
    cfg = dict(link_placement=rng.choice(['footer', 'inline', 'after_block']), image_placement=rng.choice(['footer', 'inline', 'after_block']))
    if rng.random() < .15 and cfg['link_placement'] != 'inline':
        cfg.update(output_format='gophermap', gopher_host='h')
    if rng.random() < .3:
        cfg['box'] = dict(width=40, margin=[rng.randint(0, 1), 0, rng.randint(0, 1), 0])
    return dict(html=html, cfg=cfg, kinds=kinds, empty=sorted(rng.sample(range(40), rng.choice([0, 0, 2, 8, 25]))), hostile=rng.choice(HOSTILE) if rng.random() < .3 else None)


OPEN, CLOSE = '\u27e6', '\u27e7'
_classes = {}
STATE = {}


def render(self, content):
    n = len(STATE['log'])
    if n in STATE['empty']:
        out = ''
    else:
        out = '%s%d%s%s' % (OPEN, n, STATE['hostile'] or '', CLOSE)
    STATE['log'].append((type(self).__name__, self.tag, content, out, dict(getattr(self, 'context', {}))))
    return out


def cls(name, kind):
    if (name, kind) not in _classes:
        _classes[name, kind] = type(name, (real.cls(kind),), {'render': render})
    return _classes[name, kind]


def judge(case, obs):
    html, cfg, kinds = case['html'], case['cfg'], case['kinds']
    rules = {t: cls('R_' + t, kinds.get(t, 'Renderer')) for t in TAGS}
    rules['x-y'] = cls('R_x-y', kinds.get('x-y', 'Renderer'))
    rules['ol > li'] = rules['li']
    rules[''] = cls('R_', 'Renderer')
    kw = real.kwargs(cfg)
    kw.update(renderers=rules, extracted_link_renderers={t: cls('E_' + t, 'Renderer') for t in ('a', 'img')}, optimise=False)
    STATE.update(log=[], empty=set(case['empty']), hostile=case['hostile'])
    try:
        p = real.load()[0].GopherHTMLParser(**kw)
        with real.quiet():
            p.feed(html)
            p.close()
    except Exception as e:
        raise real.RealError(e)
    log = STATE['log']
    obs.count('render calls', len(log))
    obs.nontrivial(len(log) >= 3)
    if case['hostile']:
        obs.count('hostile results', len(log))
    root = ref.tree(html)
    order = []
    post(root, order)
    place = {'a': cfg['link_placement'], 'img': cfg['image_placement']}
    # 1. exactly once, in post-order, by the renderer of the element
    placed = [e for e in log if not e[0].startswith('E_')]
    entries = [e for e in log if e[0].startswith('E_')]
    known = set(TAGS) | {'x-y'}
    want = ['R_' + (n.tag if n.tag in known else '') for n in order]
    got = [e[0] for e in placed]
    if got != want or [e[1].tag for e in placed] != [n.tag for n in order]:
        return 'rendered %r, the document calls for %r' % ([e[1].tag for e in placed][:60], [n.tag for n in order][:60])
    if len(set(id(e[1]) for e in placed)) != len(placed):
        return 'an element was rendered twice'
    outs = {id(n): e for n, e in zip(order, placed)}
    by_tag = {id(e[1]): n for n, e in zip(order, placed)}
    extracted = [n for n in preorder(root) if n.tag in place and place[n.tag] != 'inline']
    obs.count('inline links', sum(1 for n in order if n.tag in place and place[n.tag] == 'inline'))
    if sorted(e[1].tag + str(id(by_tag.get(id(e[1])))) for e in entries) != sorted(n.tag + str(id(n)) for n in extracted):
        return 'entries rendered for %r, the document has %r' % ([e[1].tag for e in entries], [n.tag for n in extracted])
    obs.count('entry calls', len(entries))
    due = {}
    number = {id(n): k for k, n in enumerate(extracted, 1)}
    positions = {id(e): k for k, e in enumerate(log)}
    for e in entries:
        n = by_tag[id(e[1])]
        due[id(n)] = e
        if e[0] != 'E_' + n.tag:
            return 'the entry of a %s was rendered by %s' % (n.tag, e[0])
        if e[4].get('link_reference', number[id(n)]) != number[id(n)]:
            return 'the entry of link %d was rendered with number %r' % (number[id(n)], e[4].get('link_reference'))
        if positions[id(e)] < positions[id(outs[id(n)])]:
            return 'an entry was rendered before its link'
        if tidy(e[2]) != tidy(outs[id(n)][2]) and not pending(n, kinds, place, root):
            return 'the entry of link %d got the content %r, the link %r' % (number[id(n)], e[2][:100], outs[id(n)][2][:100])
    obs.count('empty results', sum(1 for e in log if e[3] == ''))
    # 2. contents are the outputs of the children, in order, verbatim, then the entries that are due
    for n, e in zip(order, placed):
        block = kinds.get(n.tag) == 'Block'
        obs.count('block renderers', int(block))
        parts = compose(n, outs)
        tail = [due[id(l)][3] for l in pending(n, kinds, place, root)] if block else []
        if tail and cfg.get('output_format') == 'gophermap':
            # a menu item is no matter of the block around it, which may get anything that stands for it
            obs.count('contents with menu items')
            rest = tidy(e[2])[len(tidy(parts)):]
            if not tidy(e[2]).startswith(tidy(parts)) or OPEN in rest.replace(tidy(''.join(tail)), '') or (not rest and any(tail)):
                return 'content of %s: expected %r and menu items, got %r' % (n.tag, parts[:200], e[2][:200])
            continue
        message = compare(parts, tail, e[2], block or any(c.tag == 'br' or kinds.get(c.tag) == 'Block' for c in n.children), obs)
        if message:
            return 'content of %s: %s' % (n.tag, message)
    parts = compose(root, outs)
    tail = [due[id(l)][3] for l in pending(root, kinds, place, root)] + [due[id(l)][3] for l in extracted if place[l.tag] == 'footer']
    message = compare(parts, tail, p.parsed, True, obs)
    if message:
        return 'result: ' + message
    return None


def compose(n, outs):
    return ''.join(c.text if c.tag is None else outs[id(c)][3] for c in n.children)


def compare(parts, tail, content, loose, obs):
    obs.count('contents checked')
    if not loose and not tail:
        obs.count('contents checked exactly')
        if content != parts:
            return 'expected %r, got %r' % (parts[:200], content[:200])
        return None
    w, g = tidy(parts + '\n' + ''.join(tail)), tidy(content)
    if w != g:
        return 'expected %r, got %r' % (w[:300], g[:300])
    return None


def tidy(s):
    return re.sub(r'\s+', '', s)


def post(n, out):
    for c in n.children:
        if c.tag is not None:
            post(c, out)
            out.append(c)


def preorder(n):
    for c in n.children:
        if c.tag is not None:
            yield c
            yield from preorder(c)


def pending(n, kinds, place, root):
    """links whose entries are due at the end of n: those whose innermost block is n"""
    out = []

    def walk(x):
        for c in x.children:
            if c.tag is None:
                continue
            if c.tag in place and place[c.tag] == 'after_block':
                out.append(c)
            if kinds.get(c.tag) != 'Block':
                walk(c)
    walk(n)
    return out
