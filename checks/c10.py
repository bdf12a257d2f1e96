"""C10 link references and link entries correspond one to one"""
import re

from vlib import gen, large, oracle, real, ref

ID = 'C10'
TECHNIQUE = 'runtime monitoring: bijection monitor between the references and the entries seen in the output and the links of the document, plus comparison with a reference renderer'
LEVEL_NOTE = ('References and entries are read back from the rendered text and matched one to one, in order and content, against the links of the document for all nine placement '
              'combinations; laid out, boxed and narrow documents are compared with an independent renderer. Exploration of seeded documents and configurations.')
RULE = ('Random documents with links and images in text, headings, lists, quotations, definitions, preformatted text, inline elements, other links and at the top level, with and without '
        'targets, titles and alternative texts. Non-trivial: at least two links that are not placed inline.')
COUNT = {'quick': 12000, 'thorough': 200000}
REQUIRED = {'references matched': 20000, 'entries matched': 20000, 'inline links seen': 5000, 'documents compared': 6000, 'images in links': 500,
            'entries with title': 1000, 'documents with ten links': 300, 'documents with suppressed elements': 300}
SUPPRESSED = ('nav', 'x-h')
PLACES = ['footer', 'inline', 'after_block']
ENTRY = re.compile(r'^[\s>*:.\d]*\[(\d+)\] ?(.*?): ?(\S*)(?: "(.*)")?$')
ASSUMPTIONS = ['A link whose own renderer shows nothing keeps its entry: the caller has chosen both renderers.', 'The elements inside an extracted link are rendered again for the description of its entry, and their references are not counted a second time.']


def fixed():
    out = []
    docs = ['<p>x <a href="u1" title="t">q1z</a> y</p>', '<p>x <a href="u1">q1z</a> <img src="i1" alt="q2z"> <a href="u2">q3z</a></p><p><img src="i2"></p>',
            '<ul><li><a href="u1">q1z</a></li><li>x <img src="i1" alt="q2z"><ul><li><a href="u2">q3z</a></li></ul></li></ul>', '<a href="u1">q1z</a> <img src="i1" alt="q2z">',
            '<p><a href="u1">q1z <img src="i1" alt="q2z"> q3z</a></p>', '<p>x <a>q1z</a> <img></p>', '<p>x <a href="">q1z</a> <img src="" alt=""></p>',
            '<blockquote><p><a href="u1">q1z</a></p><p><img src="i1" alt="q2z"></p></blockquote>', '<p><em><a href="u1">q1z</a></em> <a href="u2">q2z</a></p>',
            '<h1><a href="u1">q1z</a></h1><dl><dt><a href="u2">q2z</a></dt><dd><a href="u3">q3z</a></dd></dl>', '<pre><a href="u1">q1z</a>\n<img src="i1" alt="q2z"></pre>',
            '<p>' + ' '.join('<a href="u%d">q%dz</a>' % (i, i) for i in range(1, 121)) + '</p>', '<div><p>a <a href="u1">q1z</a></p>b <a href="u2">q2z</a></div>',
            '<p>a <a href="u1">q1z <b>q2z</b></a></p><p>a <a href="u1">q3z <b>q4z</b></a></p>', '<p><a href="u1">q1z <a href="u2">q2z</a> q3z</a></p>', '<p>a <a href="u\n1\t2">q1z</a></p>',
            '<p>x<a href="u1"></a>y <a href="u2">q1z</a></p>']
    for lp in PLACES:
        for ip in PLACES:
            for read in (True, False):
                out.append(dict(html='<nav><p>x <a href="h1">q7z</a> <img src="h2" alt="q8z"></p></nav><p>x <a href="u1">q1z</a></p><p>y <x-h><a href="h3">q9z</a></x-h> <img src="i1" alt="q2z"></p>',
                                cfg=dict(link_placement=lp, image_placement=ip, renderers={'nav': 'Non', 'x-h': 'Non'}), read=read))
    for h in docs:
        for lp in PLACES:
            for ip in PLACES:
                out.append(dict(html=h, cfg=dict(link_placement=lp, image_placement=ip, width=1500), read=True))
                out.append(dict(html=h, cfg=dict(link_placement=lp, image_placement=ip), read=False))
    out += [dict(c, read=False) for c in large.cases('<a ') if 'output_format' not in c['cfg']]
    return out


def make(rng, i, tier):
    read = i % 2 == 0
    lp, ip = PLACES[i // 2 % 3], PLACES[i // 6 % 3]
    seq = [0]

    def href(r):
        seq[0] += 1
        if r.random() < .05 and not read:
            return ''
        return r.choice(['http://h.org/%d', 'u%d', '/p/%d.txt', 'gopher://g.org/%d', 'mailto:m%d@h.org', 'u%d?a=b&c={}', '#%d', 'u%d{x}%%s\\1']) % seq[0]
    k = dict(wrapped=0 if read else .06, unique=read or rng.random() < .5, links=rng.choice([.3, .7, .9]), images=rng.choice([0, .3, .7]), depth=rng.choice([0, 1, 1, 2]), children=(1, rng.choice([2, 4])),
             words=(1, rng.choice([2, 4])), href=href, br=0 if read else .05, special=0 if read else .05, bare=.2, attrs=.2, punct=0 if read else .15,
             blocks=['p', 'p', 'div', 'ul', 'ol', 'blockquote', 'h', 'dl', 'inline', 'inline'] + ([] if read else ['pre']), empty=.02)
    if read and 'after_block' in (lp, ip):
        k['blocks'].remove('h')
    d = gen.Doc(rng, **k)
    nodes = d.document()
    if rng.random() < .1:
        nodes = nodes + [d.block(1) for _ in range(8)]
    if rng.random() < .15:
        nodes.append(('p', {}, ['q100098z ', ('a', {'href': 'uo'}, ['q100097z ', ('a', {'href': 'ui'}, ['q100096z']), ' q100095z'])]))
    if read:
        cfg = dict(width=1500, link_placement=lp, image_placement=ip)
        if rng.random() < .6:
            cfg['extracted_link_renderers'] = {'a': ['ExtractedLink', dict(max_link_description=5000)], 'img': ['ExtractedImageLink', dict(max_link_description=rng.choice([3, 5000]))]}
    else:
        cfg = gen.config(rng, boxes=rng.choice([0, .5]), gophermap=0)
        cfg.update(link_placement=lp, image_placement=ip)
        x = rng.random()
        if x < .2:
            cfg['extracted_link_renderers'] = {'a': ['ExtractedLink', dict(max_link_description=rng.choice([1, 4, 40]), templates=['\n({link_reference}) {href} {description}', '\n({link_reference}) {href} {description} / {title}'])]}
        elif x < .3:
            cfg['extracted_link_renderers'] = {'.c1': [None, dict(max_link_description=2)], 'img': ['ExtractedImageLink', dict(margin=[0, 2, 0, 3])], 'p > a': [None, dict(border=['', '|', '', '|'], padding=[0, 1, 0, 1])]}
        if rng.random() < .3:
            for sel, kind in (('p', 'Paragraph'), ('li', 'ListItem'), ('dd', 'DefinitionListItem'), ('h1, h2, h3', 'MarkdownHeader')):
                spec = cfg.setdefault('renderers', {}).setdefault(sel, [kind, {}])
                if isinstance(spec, list) and spec[1] is not None:
                    spec[1]['capitalized'] = rng.random() < .7
        if rng.random() < .2:
            cfg.setdefault('renderers', {})['a'] = ['Link', dict(templates={'reference': '<{link_reference}|{content}>', 'inline': ['<{href}|{content}>', '<{href}|{content}|{title}>']}, capitalized=rng.random() < .3)]
    if not read:
        repeat(nodes, rng)
    if i % 9 == 4:
        cfg.setdefault('renderers', {})['nav'] = 'Non'
        cfg['renderers']['x-h'] = ['Non', {}]
        for _ in range(rng.randint(1, 3)):
            k = rng.randrange(len(nodes))
            if rng.random() < .5:
                nodes[k] = ('nav', {}, [nodes[k]])
            else:
                n = nodes[k]
                if n[0] in ('p', 'div', 'blockquote') and isinstance(n[2], list) and n[2]:
                    j = rng.randrange(len(n[2]))
                    n[2][j] = (rng.choice(['x-h', 'nav']), {}, [n[2][j]])
    return dict(html=gen.serialize(nodes, rng, rng.choice([0, 0, .5])), cfg=cfg, read=read)


def repeat(nodes, rng):
    """targets, titles and descriptions that are the same"""
    for n in nodes:
        if not isinstance(n, str):
            tag, attrs, kids = n
            if tag == 'img' and attrs.get('src') and rng.random() < .1:
                attrs['alt'] = attrs['src']
            elif tag == 'a' and attrs.get('href') and rng.random() < .1:
                attrs['title'] = attrs['href'] if rng.random() < .5 or not isinstance(kids[0] if kids else None, str) else kids[0].strip()
            repeat(kids, rng)


def texts(n):
    return ''.join(c.text if c.tag is None else texts(c) for c in n.children)


def tokens(s):
    return re.findall(r'q\d+z', s)


def judge(case, obs):
    html, cfg = case['html'], case['cfg']
    if not case['read']:
        message, out, model = oracle.like_model(html, cfg, obs, squeeze=True)
        obs.count('documents compared')
        obs.nontrivial(len(model.links) >= 2)
        return message
    out = oracle.text(html, cfg, obs)
    root = ref.tree(html)
    for n in [root] + list(root.walk()):
        n.children = [c for c in n.children if c.tag not in SUPPRESSED]
    if '<nav>' in html or '<x-h>' in html:
        obs.count('documents with suppressed elements')
    place = {'a': cfg['link_placement'], 'img': cfg['image_placement']}
    links, inline = [], []
    for n in root.walk():
        if n.tag in place:
            (inline if place[n.tag] == 'inline' else links).append(n)
            if n.tag == 'img' and n.parent.tag == 'a':
                obs.count('images in links')
    obs.nontrivial(len(links) >= 2)
    if len(links) >= 10:
        obs.count('documents with ten links')
    lines = out.split('\n')
    entries, refs = [], []
    last_body = -1
    for k, l in enumerate(lines):
        m = ENTRY.match(l)
        if m:
            entries.append((k, int(m.group(1)), m.group(2), m.group(3), m.group(4)))
        else:
            if l.strip():
                last_body = k
            refs += [(int(r), k) for r in re.findall(r'\]\[(\d+)\]', l)]
    # each number once in the text and once in front of an entry, and no others
    want = list(range(1, len(links) + 1))
    if sorted(r for r, _ in refs) != want:
        return 'references in the text: %s, expected one each of 1..%d' % (sorted(r for r, _ in refs), len(links))
    if sorted(e[1] for e in entries) != want:
        return 'entries: %s, expected one each of 1..%d' % (sorted(e[1] for e in entries), len(links))
    obs.count('references matched', len(refs))
    by = {e[1]: e for e in entries}
    limits = cfg.get('extracted_link_renderers') or {}
    for num, n in enumerate(links, 1):
        k, _, desc, href, title = by[num]
        target = ref.Model.href(n)
        if href != target:
            return 'entry %d shows the target %r, the link has %r' % (num, href, target)
        if n.tag == 'a':
            limit = limits['a'][1]['max_link_description'] if limits else 10
            if limit > 100:
                if tokens(desc) != _described(n):
                    return 'entry %d is described as %r, the link says %r' % (num, desc, texts(n))
            elif not n.elements():
                t = ' '.join(texts(n).split())
                if desc != ref.shorten(t, limit):
                    return 'entry %d is described as %r, the link says %r' % (num, desc, t)
            if (title or None) != (n.attrs.get('title') or None):
                return 'entry %d shows the title %r, the link has %r' % (num, title, n.attrs.get('title'))
        else:
            limit = limits['img'][1]['max_link_description'] if limits else 10
            alt = (n.attrs.get('alt') or 'Image').strip()
            if desc != ref.shorten(alt, limit):
                return 'entry %d is described as %r, the image is %r' % (num, desc, alt)
            if title is not None and title != (n.attrs.get('alt') or 'Image'):
                return 'entry %d shows the title %r, the image is %r' % (num, title, alt)
        if title is not None:
            obs.count('entries with title')
        obs.count('entries matched')
    # the reference stands where the link was
    stripped = '\n'.join(l for l in lines if not ENTRY.match(l))
    for num, n in enumerate(links, 1):
        if n.tag == 'a' and not n.elements() and tokens(texts(n)):
            t = ' '.join(texts(n).split())
            if not re.search(r'\[\s*%s\s*\]\[%d\]' % (r'\s+'.join(map(re.escape, t.split())), num), stripped):
                return 'the link %r does not stand in the text with its number %d' % (t, num)
        elif n.tag == 'img':
            t = n.attrs.get('alt') or 'Image'
            if not re.search(r'\[\s*%s\s*\]\[%d\]' % (r'\s+'.join(map(re.escape, t.split())), num), stripped):
                return 'the image %r does not stand in the text with its number %d' % (t, num)
    # footer entries follow everything, in order; after-block entries are elsewhere
    footer = [num for num, n in enumerate(links, 1) if place[n.tag] == 'footer']
    order = [e[1] for e in entries]
    if order[len(order) - len(footer):] != footer:
        return 'the entries come in the order %s, the footer should have %s' % (order, footer)
    if footer and last_body > by[footer[0]][0]:
        return 'the footer entry %d stands before line %d of the content: %r' % (footer[0], last_body + 1, lines[last_body])
    # after-block entries come after the reference and before what follows the containing element
    for num, n in enumerate(links, 1):
        if place[n.tag] == 'after_block' and _block(n).tag is not None:
            k = by[num][0]
            p = _block(n)
            inside = tokens(texts(p))
            after = []
            sibs = p.parent.children
            for c in sibs[next(i for i, x in enumerate(sibs) if x is p) + 1:]:
                after += tokens(c.text if c.tag is None else texts(c))
            body = [(i, l) for i, l in enumerate(lines) if not ENTRY.match(l)]
            if inside and any(i > k and inside[-1] in tokens(l) for i, l in body):
                return 'entry %d does not follow the content of its element' % num
            if after and any(i < k and after[0] in tokens(l) for i, l in body):
                return 'entry %d stands after what follows its element' % num
    for n in inline:
        obs.count('inline links seen')
        target = ref.Model.href(n)
        # (an image inside an extracted link may show only in its shortened description as well)
        t = ' '.join((texts(n) if n.tag == 'a' else n.attrs.get('alt') or 'Image').split())
        if (n.tag == 'img' or not n.elements()) and not any('](' + target in l and t.split(' ')[0] in l for l in lines if l):
            return 'the inline link %r does not show its target %r' % (t, target)
    message, _, _ = oracle.like_model(html, cfg, obs, squeeze=True)
    return message


def _block(n):
    n = n.parent
    while n.tag is not None and n.tag not in gen.BLOCK_TAGS:
        n = n.parent
    return n


def _described(n):
    """tokens of a link's content as its entry describes it: alternative texts included"""
    out = []
    for c in n.children:
        if c.tag is None:
            out += tokens(c.text)
        elif c.tag == 'img':
            out += tokens(c.attrs.get('alt') or '')
        else:
            out += _described(c)
    return out
