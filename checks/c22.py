"""C22 the element tree follows the tags; stray end tags change nothing"""
import re

from checks import c01
from vlib import gen, oracle, probe, real, ref

ID = 'C22'
TECHNIQUE = 'runtime monitoring: caller-supplied renderers write down the tree they see (ancestors, attributes, texts), which an independent stack machine over the tag sequence checks; metamorphic pairs for stray tags and comments'
LEVEL_NOTE = ('The tree is observed through the public renderer interface: every renderer brackets its content, so the output spells out the whole tree. An independent stack machine over the '
              'standard tokenizer\'s events says what it has to be. Exploration of seeded tag sequences.')
RULE = ('Random sequences of start tags, end tags, void and self-closing tags, attributes, text, entities, comments, declarations and processing instructions; well-formed documents with stray end tags, '
        'comments and declarations inserted or with their last end tags left out. Non-trivial: at least three elements.')
COUNT = {'quick': 30000, 'thorough': 500000}
REQUIRED = {'trees compared': 15000, 'elements': 100000, 'texts': 60000, 'void elements': 15000, 'ignored end tags': 20000, 'unclosed elements': 20000, 'pairs compared': 8000, 'attributes': 20000}

NAMES = ['p', 'div', 'b', 'em', 'span', 'ul', 'li', 'a', 'pre', 'x-y', 'td', 'h1', 'blockquote', 'P', 'Em']
VOIDS = ['br', 'img', 'hr', 'input', 'meta', 'link', 'wbr', 'area', 'base', 'col', 'embed', 'param', 'source', 'track', 'BR', 'Img']
EXTRA = ['<!-- c -->', '<!-- <p>no</p> -->', '<!DOCTYPE html>', '<?php x ?>', '<!-- a\nb -->', '<!ELEMENT x>', '<!---->', '<!-- -- > -->', '<!-- </p> -->']
STRAY = ['</zz>', '</br>', '</img>', '</hr>', '</input>', '</body>', '</x:y>', '</q9>', '</ZZ>', '</wbr>', '</meta>', '</zz >']


def fixed():
    out = []
    for v in VOIDS:
        for form in ('<%s>', '<%s/>', '<%s />', '<%s></%s>' % ('%s', v), '<%s class="c">'):
            out.append(dict(html='<p>a' + form % v + 'b</p>c', kind='tree'))
            out.append(dict(html='a' + form % v + '<em>b</em>', kind='tree'))
    for h in ('<p>a<p>b<p>c', '<b><i>x</b>y</i>z', '</p>a</div>', '<ul><li>a<li>b</ul>c', '<div><div></div>', 'a<!-- x -->b', '<p>a</p></p></p>b', '<p/>a', '<div/><p>b</p>', '<pre><b>x</pre>y', '<a><img><a></a></a>',
              '<p></em>a</em></p>', '<em>' * 60 + 'x' + '</em>' * 60, '<p>a</P>b', '<DIV>a</div>b', '<p>a</div>b</p>c', 'text', '', '<p>', '<br>', '</br>', '<p><br></br></p>', '<p>x</p >y', '<input>a</input>b', '<p>&lt;b&gt;</b></p>',
              '<x-y a="1" a="2">q</x-y>', '<p CLASS="A b">x</p>', '<p disabled>x</p>', '<script><p></script>x', '<style></p></style>y', '<p>a<script>b</script>c</p>'):
        out.append(dict(html=h, kind='tree'))
    return out


def soup(rng):
    names = rng.sample(NAMES, rng.choice([2, 4, 8]))
    out, opened = [], []
    for _ in range(rng.choice([4, 10, 25, 60])):
        x = rng.random()
        if x < .3:
            n = rng.choice(names)
            a = ''.join(rng.choice([' class="c%d d"', ' class="c%d\u00a0d  e"', ' id="i%d"', ' data-x="v%d"', ' title="t %d &amp; u"', ' k%d', ' K%d=v', ' data-y=" v  %d "', ' title="\tT %d\n"', ' data-z="%d" data-w=""', ' lang="EN-%d"', ' data-q="{%d}"']) % rng.randint(1, 9) for _ in range(rng.choice([0, 0, 0, 1, 2])))
            out.append('<%s%s%s>' % (n, a, '/' if rng.random() < .04 else ''))
            opened.append(n)
        elif x < .4:
            out.append('<%s%s>' % (rng.choice(VOIDS), rng.choice(['', '/', ' /', ' class="v"'])))
        elif x < .6:
            if opened and rng.random() < .7:
                out.append('</%s>' % opened.pop())
            else:
                out.append('</%s>' % rng.choice(names + VOIDS[:3] + ['zz']))
        elif x < .66:
            out.append(rng.choice(EXTRA))
        elif x < .68:
            out.append(rng.choice(['<script>a<b</script>', '<style>p > q</style>', '<script></script>']))
        else:
            out.append(rng.choice(['w%d', ' w%d ', 'w%d &amp; x', '\n  w%d\n', 'w%d\tv', ' ', '\n', '&lt;p&gt;%d', 'a < %d', '%d > b']).replace('%d', str(rng.randint(1, 99))))
    return ''.join(out)


def make(rng, i, tier):
    if i % 3 < 2:
        return dict(html=soup(rng), kind='tree')
    d = gen.Doc(rng, wrapped=.06, links=.2, images=.2, unknown=.1, special=.05, depth=rng.choice([0, 1, 2]), children=(1, 3), words=(1, 6), br=.1, attrs=.2)
    nodes = d.document()
    html = gen.serialize(nodes, rng, rng.choice([0, .4]))
    kind = rng.choice(['stray', 'stray', 'extra', 'unclosed'])
    if kind == 'unclosed':
        other = re.sub(r'(</[a-z0-9-]+>\s*)+\Z', '', html)
        html = html.rstrip()
        if rng.random() < .5:
            k = html.rfind('</')
            while k > len(other) and rng.random() < .5:
                k = html.rfind('</', 0, k)
            other = html[:k] if k > 0 else html
            if re.sub(r'</[a-z0-9-]+>|\s', '', html[len(other):]):
                other = html
    else:
        other = insert(html, rng, kind)
    cfg = gen.config(rng, boxes=.2, styles=.2)
    return dict(html=html, other=other, cfg=cfg, kind='pair')


def insert(html, rng, kind):
    """stray end tags or comments inserted somewhere in the text"""
    for _ in range(rng.choice([1, 1, 2, 5])):
        # between constructs, or inside text
        places, k = [], 0
        for m in re.finditer(r'<[^>]*>|&[^;\s]*;|[^<&]', html):
            places.append(m.start())
        places.append(len(html))
        k = rng.choice(places)
        if kind == 'extra':
            x = rng.choice(EXTRA)
        else:
            x = rng.choice(STRAY)
            if rng.random() < .6:
                # the name of an element that is open here, but not the innermost, or is not open
                stack = []
                for m in re.finditer(r'<(/?)([a-z0-9-]+)[^>]*>', html[:k]):
                    if m.group(2) in ref.VOID:
                        continue
                    if m.group(1):
                        if stack and stack[-1] == m.group(2):
                            stack.pop()
                    else:
                        stack.append(m.group(2))
                names = [n for n in set(stack[:-1]) | {'p', 'div', 'em', 'li'} if not stack or n != stack[-1]]
                x = '</%s>' % rng.choice(sorted(names))
        html = html[:k] + x + html[k:]
    return html


def judge(case, obs):
    if case['kind'] == 'pair':
        trees = [[], []]
        for t, h in zip(trees, (case['html'], case['other'])):
            serialize(ref.tree(h), t, obs)
        if trees[0] != trees[1]:
            # (the standard tokenizer takes the insertion for something else)
            obs.count('pairs with different tokens')
            return None
        a = oracle.text(case['html'], case['cfg'], obs)
        b = oracle.text(case['other'], case['cfg'], obs)
        obs.count('pairs compared')
        obs.nontrivial(case['html'].count('<') > 5)
        if a != b:
            return 'the output changes with %r: %s' % (case['other'], oracle.first_difference(a, b))
        return None
    html = case['html']
    ignored = []
    root = ref.tree(html, ignored)
    obs.count('ignored end tags', len(ignored))
    n = sum(1 for _ in root.walk())
    obs.nontrivial(n >= 3)
    obs.count('elements', n)
    want = []
    serialize(root, want, obs)
    got = observe(html)
    obs.count('trees compared')
    obs.count('unclosed elements', max(0, len(re.findall(r'<[a-zA-Z]', html)) - len(re.findall('</', html))))
    w, g = tidy(''.join(want)), tidy(got[0])
    if w != g:
        k = next((i for i in range(min(len(w), len(g))) if w[i] != g[i]), min(len(w), len(g)))
        return 'the tree differs: expected %r, got %r' % (w[max(0, k - 40):k + 80], g[max(0, k - 40):k + 80])
    # ancestors as the renderers see them
    chains = []
    ancestors(root, [], chains)
    if got[1] != chains:
        k = next((i for i in range(min(len(chains), len(got[1]))) if chains[i] != got[1][i]), -1)
        return 'ancestors differ: expected %r, seen %r' % (chains[k], got[1][k] if k < len(got[1]) else None)
    return None


OPEN, CLOSE = '\u27e6', '\u27e7'


def tidy(s):
    """white space next to a tag may belong to the layout"""
    return re.sub(r'\s*([%s%s])\s*' % (OPEN, CLOSE), r'\1', s).strip()


def attributes(attrs):
    out = []
    for k, v in sorted(attrs.items()):
        if k == 'class':
            v = ' '.join(v) if isinstance(v, list) else ' '.join(re.findall('[^ \t\n\r\f]+', v or ''))
        out.append('%s=%r' % (k, v))
    return ','.join(out)


def serialize(n, out, obs):
    for c in n.children:
        if c.tag is None:
            out.append(c.text)
            obs.count('texts')
        else:
            if c.tag in ref.VOID:
                obs.count('void elements')
            obs.count('attributes', len(c.attrs))
            out.append('%s%s|%s|' % (OPEN, c.tag, attributes(c.attrs)))
            serialize(c, out, obs)
            out.append(CLOSE)


def ancestors(n, above, out):
    for c in n.children:
        if c.tag is not None:
            ancestors(c, [c.tag] + above, out)
            out.append((c.tag, above))


_probe = []


def observe(html):
    """-> the bracketed tree and the chains of ancestors, as caller-supplied renderers see them"""
    if not _probe:
        seen = []

        def render(self, content):
            t = self.tag
            seen.append((t.tag, [a.tag for a in probe.chain(t)]))
            return '%s%s|%s|%s%s' % (OPEN, t.tag, attributes(t.attrs), content, CLOSE)
        _probe.extend([type('Bracket', (real.cls('Renderer'),), {'render': render}), seen])
    cls, seen = _probe
    del seen[:]
    rules = {'': cls, '*': cls}
    for sel in ('a', 'img', 'p', 'div', 'b', 'em', 'span', 'ul', 'ol', 'li', 'ol > li', 'pre', 'h1', 'blockquote', 'br', 'code', 'dl', 'dt', 'dd', 'strong', 'i', 'u', 's', 'ins', 'del', 'h2', 'h3', 'h4', 'h5', 'h6'):
        rules[sel] = cls
    try:
        p = real.load()[0].GopherHTMLParser(renderers=rules, link_placement='inline', image_placement='inline', optimise=False)
        with real.quiet():
            p.feed(html)
            p.close()
    except Exception as e:
        raise real.RealError(e)
    return p.parsed, list(seen)
