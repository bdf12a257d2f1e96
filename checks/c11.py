"""C11 every gophermap link line is a well-formed menu item"""
import re

from vlib import gen, oracle, real, ref

ID = 'C11'
TECHNIQUE = 'runtime monitoring: a gopher menu parser reads every output line back and matches the items against the links of the document, with hostile data everywhere'
LEVEL_NOTE = ('Every line of the produced gophermaps is parsed as a gopher client would; items are compared field by field with what the targets were built from, or with an independent '
              'classification for odd targets. Exploration of seeded documents, targets, titles and configurations, links placed in the footer or after blocks of any kind.')
RULE = ('Random documents with links and images whose targets are built from known components (scheme, host, port, path, extension) or hostile (bad ports, brackets, tabs, line breaks, '
        'control characters), hostile titles and alternative texts, page and entry boxes, narrow widths, and configurations that must be refused. Non-trivial: at least one menu item.')
COUNT = {'quick': 30000, 'thorough': 500000}
REQUIRED = {'items parsed': 30000, 'items of type h': 5000, 'items of type 0': 1000, 'items of type 1': 1000, 'items of type 9': 1000, 'items of type I': 1000, 'items of type g': 500,
            'foreign URLs': 3000, 'gopher URLs with port': 1000, 'hostile targets': 3000, 'hostile labels': 3000, 'refused': 100, 'image items': 3000, 'page margins': 3000, 'items at the end of a block': 10000}
INLINES = ('em', 'b', 'a', 'span', 'x-y')
BLOCKS = {'p': 'Paragraph', 'div': 'Block', 'blockquote': 'BlockQuote', 'ul': 'List', 'li': 'ListItem', 'pre': 'Pre', 'h2': 'MarkdownHeader', 'dd': 'DefinitionListItem', 'dt': 'DefinitionListTermHeader'}
EXT = {'html': 'h', 'htm': 'h', 'gif': 'g', 'jpg': 'I', 'jpeg': 'I', 'png': 'I', 'bmp': 'I', 'tiff': 'I', 'txt': '0', 'csv': '0', 'tsv': '0', 'md': '0',
       'zip': '9', 'tar.gz': '9', 'exe': '9', 'c': '9', 'pdf': '9', 'GIF': '9', 'txt~': '9', 'jpegx': '9', '': '9', 'htm.old': '9', 'gz.txt': '0', 'old.html': 'h'}
LABELS = ['a\tb', 'a\nb', 'a\r\nb', '\t', 'x\t0\thost\t70', 'a\rb', 'tab\tin the title', '\n', '  padded  ', 'iInfo\tfake\thost\t70', '.', 'a\x0bb', 'a\x0cb', 'a\x1cb', 'a\x85b', 'a\u2028b', 'a\u00a0b',
          '{}', '{0}', '%s', 'long description of the thing', 'é中', '<b>', '[9]', '1[2]', '\\t', 'a  b', '&#9;', 'x' * 200, '\t\t\t', 'a\x00b', '', ' ']
ODD = ['http://[', 'gopher://h:port/', 'gopher://h:99999/x', '//h:x/y', 'http://h:99999/', 'http://[::1]/x', 'gopher://[::1]/x.txt', 'gopher://', 'gopher:///x.txt', '', '#', '?q', '?q=1.txt', 'a?b.txt', '/#f.gif', ' a.txt', 'a.txt ',
       'a b.txt', 'a\tb.txt', 'a\nb.txt', 'ht\ntp://x/', '\thttp://x/y', 'gopher://h\t/x', 'a&#9;b', '{}', '{href}', '%s.txt', 'a;b.txt', '..', '../x.txt', './', '.txt', 'a.', 'dir.d/', 'dir.txt/x', 'x/.gif', '//h/p.txt', '//h',
       'javascript:alert(1)', 'HTTP://H/X', 'GOPHER://H/X.txt', 'mailto:a@b', 'tel:1', 'a:b', '1:2', ':x', 'é.txt', 'http://é/', 'gopher://u:p@h:71/x', 'gopher://h:/x', 'gopher://h:0/x', 'http:///', 'http:', 'x' * 300 + '.txt', '\\', 'a\x0bb.txt',
       'a\x1cb.gif', 'a\u2028b', 'gopher://h/x\ty\tz\t1', 'data:text/plain,a\tb', '\x00']


def fixed():
    out = []
    for o in ODD:
        for tag in ('<a href="%s">x</a>', '<img src="%s" alt="x">'):
            out.append(dict(html='<p>' + tag % gen.esc_attr(o) + '</p>', known=[None], cfg=base(dict(image_placement='footer'))))
    for l in LABELS:
        e = gen.esc_attr(l)
        out.append(dict(html='<p><a href="u.txt" title="%s">x</a></p>' % e, known=[['0', 'u.txt', 'my.host', '70']], cfg=base({})))
        out.append(dict(html='<p><img src="u.txt" alt="%s"></p>' % e, known=[['0', 'u.txt', 'my.host', '70']], cfg=base(dict(image_placement='footer'))))
        out.append(dict(html='<p><a href="u.txt">%s</a></p>' % e, known=[['0', 'u.txt', 'my.host', '70']], cfg=base({})))
    for o in ('http://example.org/' + 'long/' * 30, '/a b  c.txt', 'x' * 100 + '.gif'):
        for t in ('<p>%s</p>', '<div>y %s</div>', '<ul><li>%s</li><li>y</li></ul>', '<blockquote><p>y</p><ul><li>%s</li></ul></blockquote>', '<pre>%s</pre>', '<h1>%s</h1>', '<dl><dt>x</dt><dd>%s</dd></dl>', '%s<p>y</p>'):
            out.append(dict(html=t % ('<a href="%s" title="the title  of it">x</a><img src="/z.png" alt="y">' % o), known=[None, None], cfg=base(dict(link_placement='after_block', image_placement='after_block', width=30))))
    out.append(dict(html='<p><a>x</a><img></p>', known=[None, None], cfg=base(dict(image_placement='footer'))))
    out.append(dict(html='<p><a href>x</a><img src alt></p>', known=[None, None], cfg=base(dict(image_placement='footer'))))
    for c in (dict(link_placement='inline'), dict(gopher_host=''), dict(gopher_host=None, link_placement='inline')):
        out.append(dict(html='<p>x</p>', known=[], cfg=base(c), refused=True))
    out.append(dict(html='<p>' + ' '.join('<a href="u%d.txt">x</a>' % i for i in range(150)) + '</p>', known=[['0', 'u%d.txt' % i, 'my.host', '70'] for i in range(150)], cfg=base({})))
    return out


def base(c):
    d = dict(output_format='gophermap', gopher_host='my.host', gopher_port=70, link_placement='footer')
    d.update(c)
    return {k: v for k, v in d.items() if v is not None}


def target(rng, host, port):
    """-> (target, expected fields or None)"""
    x = rng.random()
    here = [host, str(port)]
    if x < .15:
        return rng.choice(ODD), None
    seg = lambda: rng.choice(['a', 'dir', 'x.d', 'v1.2', 'some-file', 'é', 'a_b', '~u', 'a+b', 'caf%C3%A9', 'x' * 30, 'a;b', 'x;v=1', 'c,d', '(e)', 'f@g', '!$'])
    dirs = ''.join(seg() + '/' for _ in range(rng.randint(0, 3)))
    y = rng.random()
    if y < .2:
        last, kind = rng.choice(['', 'menu', 'a-b', 'x' * 20]), '1'
    else:
        e = rng.choice(list(EXT))
        last, kind = seg().replace('.', '-') + '.' + e, EXT[e]
    path = dirs + last
    if x < .45:
        url = rng.choice(['http', 'https', 'http', 'ftp', 'gemini', 'mailto', 'HTTPS', 'finger', 'svn+ssh']) + ':' + rng.choice(['//', '//', '']) + rng.choice(['h.org', 'h.org:8080', 'u@h.org']) + '/' + path + rng.choice(['', '?a=b&c=d', '#f', '?x=1.txt'])
        return url, ['h', 'URL:' + url] + here
    if x < .7:
        h = rng.choice(['g.org', 'sdf.org', 'example-1.net'])
        p = rng.choice([None, None, 70, 7070, 105, 1, 65535])
        url = '%s://%s%s/%s' % (rng.choice(['gopher', 'gopher', 'Gopher']), h, '' if p is None else ':%d' % p, path)
        return url + rng.choice(['', '', '', '?a=b', '?x', '#f', '?q=1.txt', '?x#f.gif', '#']), [kind, '/' + path, h, str(70 if p is None else p)]
    path = rng.choice(['', '/', './', '../']) + path
    if path.startswith('//') or ':' in path.split('/')[0]:
        path = path.lstrip('/')
    return path, [kind, path] + here


def make(rng, i, tier):
    if i % 60 == 59:
        return dict(html='<p>x</p>', known=[], cfg=base(rng.choice([dict(link_placement='inline'), dict(gopher_host=''), dict(gopher_host=None), dict(link_placement='inline', image_placement='footer', width=rng.randint(1, 90))])), refused=True)
    host, port = rng.choice(['my.host', 'h.example', 'localhost', '127.0.0.1']), rng.choice([70, 7070, 1, 65535])
    known = []
    images = rng.random() < .5
    top = rng.random() < .15

    def link():
        t, fields = target(rng, host, port)
        known.append(fields)
        a = [('src' if img else 'href', t)]
        if rng.random() < .5:
            a.append(('alt' if img else 'title', rng.choice(LABELS) if rng.random() < .6 else ' '.join(gen.word(rng) for _ in range(rng.randint(1, 4)))))
        rng.shuffle(a)
        s = ' '.join('%s="%s"' % (k, gen.esc_attr(v)) for k, v in a)
        if img:
            return '<img %s>' % s
        return '<a %s>%s</a>' % (s, gen.esc_attr(rng.choice(LABELS)) if rng.random() < .3 else rng.choice(['', '<em>%s</em>', '%s<br>y', '<b>%s</b> z']).replace('%s', gen.word(rng)) if rng.random() < .5 else gen.word(rng))
    out = []
    for _ in range(rng.randint(1, 4)):
        img = images and rng.random() < .4
        w = lambda: rng.choice([' ', ' ', ' ', '\t', ' \t', '\n\t']).join(gen.word(rng) for _ in range(rng.randint(0, 8)))
        if top:
            out.append(link())
            continue
        t = rng.choice(['<p>%s</p>', '<p>%s</p>', '<ul><li>%s</li><li>x</li></ul>', '<blockquote><p>%s</p></blockquote>', '<div>%s</div>', '<h2>%s</h2>', '%s', '<dl><dt>%s</dt><dd>y</dd></dl>', '<pre>%s</pre>', '<pre>0a\tb\th\t70\n%s</pre>', '<p><em>%s</em></p>', '<p>&#9;%s&#9;</p>',
                        '<ul><li><blockquote><div>%s</div></blockquote></li></ul>', '<x-y><div>%s</div>y</x-y>', '<ol><li>y<p>%s</p></li></ol>'])
        out.append(t.replace('%s', '%s %s %s' % (w(), link(), w())))
    cfg = base(dict(gopher_host=host, gopher_port=port, image_placement='footer' if images else rng.choice(['inline', 'footer'])))
    if top or rng.random() < .35:
        cfg['link_placement'] = 'after_block'
        if images:
            cfg['image_placement'] = rng.choice(['after_block', 'after_block', 'footer'])
    elif images and rng.random() < .15:
        cfg['image_placement'] = 'after_block'
    if port == 70 and rng.random() < .5:
        del cfg['gopher_port']
    if rng.random() < .5:
        cfg['box'] = dict(width=rng.choice([20, 40, 67]), margin=gen.margins(rng, 6))
    elif rng.random() < .4:
        cfg['width'] = rng.choice([5, 10, 30, 80])
    if rng.random() < .4:
        s = gen.box_settings(rng)
        if rng.random() < .5:
            s['max_link_description'] = rng.choice([0, 1, 3, 50])
        cfg['extracted_link_renderers'] = {'a': ['ExtractedLink', s], 'img': ['ExtractedImageLink', dict(s)]}
    if cfg['link_placement'] == 'after_block' and rng.random() < .6:
        # whatever the blocks do to their lines
        cfg['renderers'] = {}
        for tag in rng.sample(sorted(BLOCKS), 3):
            cfg['renderers'][tag] = [BLOCKS[tag], gen.box_settings(rng)]
            if tag == 'p':
                cfg['renderers'][tag][1].update(gen.paragraph_settings(rng))
    if rng.random() < .2:
        cfg['optimise'] = False
    return dict(html=''.join(out), known=known, cfg=cfg)


def judge(case, obs):
    html, cfg = case['html'], case['cfg']
    if case.get('refused'):
        try:
            real.load()[0].GopherHTMLParser(**real.kwargs(cfg))
        except ValueError:
            obs.count('refused')
            return None
        return 'the configuration %r is accepted' % cfg
    out = oracle.text(html, cfg, obs)
    model = ref.render(html, cfg)
    host, port = cfg['gopher_host'], str(cfg.get('gopher_port', 70))
    links = [n for n in model.links]
    if len(links) == len(case['known']):
        known = case['known']
    else:
        known = [None] * len(links)     # (an odd document: a link swallowed another)
    lines = out.split('\n')
    items = [l for l in lines if '\t' in l]
    obs.nontrivial(items)
    if (cfg.get('box') or {}).get('margin', [0] * 4)[3]:
        obs.count('page margins')
    if len(items) != len(links):
        return '%d menu items for %d links: %r' % (len(items), len(links), items[:6])
    seen = set()
    for k, item in enumerate(items, 1):
        obs.count('items parsed')
        f = item.split('\t')
        if len(f) != 4:
            return 'item %d has %d fields: %r' % (k, len(f), item)
        # after blocks they stand in the order in which the blocks end
        n = k
        if 'after_block' in (cfg['link_placement'], cfg.get('image_placement')):
            m = re.match(r'^.\[([0-9]+)\]', f[0], re.S)
            n = int(m.group(1)) if m else k
            if not 1 <= n <= len(links) or n in seen:
                return 'item %d has the number %d: %r' % (k, n, item)
            seen.add(n)
            node = links[n - 1]
            block = node.parent
            while block.tag in INLINES:
                block = block.parent
            obs.count('items at the end of a block', block.tag is not None and cfg.get('image_placement' if node.tag == 'img' else 'link_placement') == 'after_block')
        node, fields = links[n - 1], known[n - 1]
        m = re.match(r'^([0-9hgI])\[%d\] ?(.*)$' % n, f[0], re.S)
        if not m:
            return 'item %d does not start with its type and number: %r' % (n, item)
        if '\r' in item:
            return 'item %d contains a carriage return: %r' % (n, item)
        kind, label = m.groups()
        obs.count('items of type ' + kind)
        if node.tag == 'img':
            obs.count('image items')
        href = ref.Model.href(node)
        want = fields
        if want is None:
            obs.count('hostile targets')
            want = [str(x) for x in ref.gopher_target(href, cfg)]
        elif want[1].startswith('URL:'):
            obs.count('foreign URLs')
        elif re.search(r':\d+/', href):
            obs.count('gopher URLs with port')
        got = [kind] + f[1:]
        if cfg.get('optimise', True) and got != want:
            want = [w.rstrip() if k == 3 else w for k, w in enumerate(want)]
        if got != want:
            return 'item %d of %r is %r, expected %r' % (n, href, got, want)
        given = node.attrs.get('alt' if node.tag == 'img' else 'title')
        if given is not None:
            if given in LABELS:
                obs.count('hostile labels')
            if node.tag == 'a' and label != ' '.join(given.split()):
                return 'item %d is labelled %r, its title is %r' % (n, label, given)
        message = None
    # the items follow everything else, and everything is as a separate renderer has it
    if cfg['link_placement'] == 'footer' and cfg.get('image_placement') != 'after_block' and items:
        k = next(i for i, l in enumerate(lines) if '\t' in l)
        if any(l.strip() and '\t' not in l for l in lines[k:]):
            return 'text follows the menu items: %r' % [l for l in lines[k:] if '\t' not in l][:3]
    return oracle.first_difference(ref.rstrip_lines(model.text), ref.rstrip_lines(out))
