"""C19 white space in the source is insignificant outside preformatted text"""
import re

from vlib import gen, oracle, ref

ID = 'C19'
TECHNIQUE = 'runtime monitoring: metamorphic monitor - the same document re-spaced at insignificant places in several ways, all outputs compared'
LEVEL_NOTE = ('Every case renders a compact document and up to four re-spaced versions of it (pretty-printed, random runs, one line per word, carriage returns) with the real code; all outputs must be identical, '
              'and that of the compact one must be what an independent model says. Exploration of seeded documents and spacings.')
RULE = ('Documents of every element with words, inline markup, links, images and line breaks; every run of white space outside pre is replaced by other runs, and runs are inserted at the edges of paragraphs and between block-level tags. '
        'Non-trivial: at least five runs changed.')
COUNT = {'quick': 9000, 'thorough': 200000}
REQUIRED = {'pairs': 25000, 'runs changed': 500000, 'runs inserted': 120000, 'documents with pre': 1000, 'carriage returns': 3500, 'compared with the model': 2500}
ASSUMPTIONS = ['White space is space, tab, line feed, carriage return and form feed, as HTML defines it.', 'White space inside pre, and next to inline tags where the compact document has none, is significant.']
SPACE = ' \t\n\r\x0c'
TAG = re.compile(r'(<[^>]*>)')
RUN = re.compile('[ \t\n\r\x0c]+')
BLOCKS = gen.BLOCK_TAGS
STYLES = ['pretty', 'random', 'words', 'crlf', 'tabs', 'one']


def fixed():
    out = []
    for h in ('<p>a b c</p>', '<p>a <em>b c</em> d</p>', '<p><em>a</em> <em>b</em></p>', '<ul><li>a b</li><li>c</li></ul>', '<ul><li><p>a</p></li></ul>', '<ol><li>a<ul><li>b</li></ul></li></ol>',
              '<dl><dt>a b</dt><dd>c d</dd></dl>', '<blockquote><p>a</p><p>b</p></blockquote>', '<h1>a b</h1><p>c</p>', '<div><p>a</p></div><div>b</div>', '<p>a<br>b</p><p>c</p>', '<pre> a\n  b</pre><p>c d</p>',
              '<p>a. B c. D</p>', '<p><a href="u">a b</a> c</p>', '<p>a <img src="u" alt="x"> b</p>', '<blockquote>a b</blockquote>', '<p>a</p><pre>x  y</pre><p>b</p>', '<p></p><p>a</p>', '<div></div><p>a</p>', '<ul></ul>',
              '<p>a<br><span>b</span></p>', '<p><span>a</span></p>', '<p><span><span>a</span> <em>b</em></span></p>', '<p>a<br>b<br><span>c <em>d</em></span><br>e</p>', '<blockquote><p><span>a</span></p></blockquote>'):
        for style in STYLES:
            for seed in (1, 2):
                out.append(dict(html=h, cfg={}, seed=seed, styles=[style]))
    return out


def make(rng, i, tier):
    d = gen.Doc(rng, wrapped=.06, links=.15, images=.1, unknown=.05, depth=rng.choice([0, 1, 2, 3]), children=(1, 3), words=(1, rng.choice([3, 10, 40])), br=rng.choice([0, .05, .2]), inlines=rng.choice([gen.INLINES, ['span', 'em']]), bare=.1, punct=.3, attrs=.1, special=.03,
                blocks=rng.choice([['p', 'div', 'ul', 'ol', 'blockquote', 'pre', 'h', 'dl'], ['p', 'blockquote', 'ul', 'div'], ['p', 'p', 'pre', 'ol']]))
    cfg = gen.config(rng, boxes=.2, styles=.3, gophermap=.1)
    return dict(html=gen.serialize(d.document()), cfg=cfg, seed=rng.randrange(1 << 30), styles=rng.sample(STYLES, 3))


def run(rng, style, depth):
    if style == 'pretty':
        return '\n' + '  ' * depth
    if style == 'words':
        return '\n'
    if style == 'crlf':
        return rng.choice(['\r\n', '\r\n  ', '\r'])
    if style == 'tabs':
        return '\t' * rng.randint(1, 3)
    if style == 'one':
        return ' '
    return ''.join(rng.choice(SPACE) for _ in range(rng.choice([1, 1, 2, 3, 8])))


def name(tag):
    m = re.match(r'</?\s*([a-zA-Z0-9-]+)', tag)
    return m.group(1).lower() if m else ''


def line_edge(parts, k, step, inner):
    if not inner or inner[-1] != 'p':
        return False
    j = k + step
    while 0 <= j < len(parts) and name(parts[j]) == 'span' and 0 <= j + step < len(parts) and parts[j + step] == '':
        j += 2 * step
    if not 0 <= j < len(parts) or j == k + step and name(parts[j]) != 'br':
        return False
    return name(parts[j]) == 'br' or name(parts[j]) == 'p' and parts[j].startswith('</') == (step > 0)


def respace(html, style, rng, obs):
    """the same document with other insignificant white space"""
    parts = TAG.split(html)
    out, pre, depth, inner, link = [], 0, 0, [], 0
    rate = rng.choice([.2, .6, 1])
    for k, p in enumerate(parts):
        if k % 2:
            n = name(p)
            close = p.startswith('</')
            if n == 'pre':
                pre += -1 if close else 1
            if n == 'a':
                # (the description of its entry is not divided into lines)
                link += -1 if close else 1
            if n in BLOCKS:
                depth += -1 if close else 1
                if close:
                    if n in inner:
                        del inner[len(inner) - 1 - inner[::-1].index(n):]
                else:
                    inner.append(n)
            out.append(p)
            continue
        if pre:
            out.append(p)
            continue
        before, after = (parts[k - 1] if k else ''), (parts[k + 1] if k + 1 < len(parts) else '')
        edge = (name(before) in BLOCKS or not before, name(after) in BLOCKS or not after)
        if p.strip(SPACE) and not link:
            # at the start and end of a line of a paragraph, within inline elements that render as their content
            edge = (edge[0] or line_edge(parts, k, -1, inner), edge[1] or line_edge(parts, k, 1, inner))

        def other(m):
            if rng.random() < rate:
                obs.count('runs changed')
                obs.changed += 1
                return run(rng, style, depth)
            return m.group()
        t = RUN.sub(other, p)
        if not p.strip(SPACE):
            ok = edge[0] and edge[1] or (name(before) == 'p' and not before.startswith('</')) or after == '</p>'
            if not p and ok and rng.random() < rate:
                t = run(rng, style, depth)
                obs.count('runs inserted')
        else:
            if edge[0] and not p[:1].isspace() and rng.random() < rate:
                t = run(rng, style, depth) + t
                obs.count('runs inserted')
            if edge[1] and not p[-1:].isspace() and rng.random() < rate:
                t = t + run(rng, style, depth)
                obs.count('runs inserted')
        out.append(t)
    return ''.join(out)


def judge(case, obs):
    import random
    rng = random.Random(case['seed'])
    html, cfg = case['html'], case['cfg']
    want = oracle.text(html, cfg, obs)
    if '<pre' in html:
        obs.count('documents with pre')
    for style in case['styles']:
        obs.changed = 0
        other = respace(html, style, rng, obs)
        got = oracle.text(other, cfg, obs)
        obs.count('pairs')
        if '\r' in other:
            obs.count('carriage returns')
        obs.nontrivial(obs.changed >= 5)
        if got != want:
            return 'respaced (%s) as %r: %s' % (style, other[:1500], oracle.first_difference(want, got))
    if case['seed'] % 3 == 0:
        obs.count('compared with the model')
        model = ref.render(html, cfg).text
        return oracle.first_difference(ref.rstrip_lines(model), ref.rstrip_lines(want))
    return None
