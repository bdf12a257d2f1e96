"""C14 preformatted text is reproduced verbatim"""
import html as _html

from vlib import gen, large, oracle, ref

ID = 'C14'
TECHNIQUE = 'runtime monitoring: character-by-character comparison of rendered preformatted lines with the source lines, whole documents compared with a reference renderer'
LEVEL_NOTE = ('A direct verbatim monitor on top-level, div and quoted preformatted blocks, untrimmed and fed whole or in pieces, with the text around them '
              'compared with an independent reference. Exploration of seeded random texts.')
RULE = ('Random preformatted texts (indents, runs of spaces, tabs, blank lines, entities, markup-like and template-like characters, long lines) in '
        'top-level, div, blockquote, list item, definition and paragraph positions, with inline elements inside and other blocks around. Non-trivial: two lines or a run of white space.')
COUNT = {'quick': 60000, 'thorough': 900000}
REQUIRED = {'verbatim lines': 60000, 'blank lines': 5000, 'lines wider than the page': 3000, 'fed in pieces': 2000, 'inside reflowed blocks': 8000}
ASSUMPTIONS = ['Lines are separated by \\n.']

ODD = ['{}', '{0}', '{', '}', '%s', '\\n', '\\', '&', '<b>', '</p>', '"', "'", '&amp;', '#', '> ', '* ', '`', '```', '$', '\t', '  ', '     ', '\u00e9',
       '\u4e2d', '</pr', '<!--', '-->', '. ', '.  A', '-', 'a-b-c', '\u00a0', '{line_template}', '[1]', '&lt;', '\x0c', '\x0b', '\x85', '\u2028', '\u2029', '\x1c', '\x1e']


# blocks that reflow their text, around the preformatted one -> their markup, what its lines are indented by
INSIDE = dict(item=('<ul><li>q%s<p>r</p></li></ul>', 2), nested=('<ol><li>q<ul><li>r%ss</li></ul></li></ol>', 5), definition=('<dl><dt>q</dt><dd>r%ss</dd></dl>', 2),
              paragraph=('<p>q%s</p>', 0), section=('<ul><li>q<section>r<span>%s</span>s</section></li></ul>', 2), quoted=('<ul><li><p>q r</p>%ss<br>t</li></ul>', 2))


def line(rng):
    x = rng.random()
    if x < .15:
        return ''
    if x < .2:
        return ' ' * rng.randint(1, 9)
    s = ' ' * rng.choice([0, 0, 1, 2, 3, 4, 8, 20])
    if rng.random() < .1:
        s += '\t'
    for _ in range(rng.choice([1, 2, 4, 9, 30 if rng.random() < .3 else 3])):
        s += rng.choice(ODD) if rng.random() < .3 else gen.word(rng)
        s += ' ' * rng.choice([0, 1, 1, 1, 2, 5])
    return s


def fixed():
    out = []
    for lines in (['a'], ['', 'a'], ['a', '', '', 'b'], ['  a', 'b  c', '\td'], ['x' * 300], ['{}', '{0}', '{x!r}'], ['a &amp; b <i>'], ['* a', '> b', '# c'],
                  ['    four', '  two', 'none'], ['.  A', 'b.  C'], ['a ', '', 'b  '], ['def f(x):', '    return {x: "%s" % x}', '', ''],
                  [' lead'], ['a' + ' ' * 100 + 'b'], ['a\x0cb', '\x0c', 'c\u2028d\x85e', '\x0b f']):
        for where in ('top', 'div', 'quote', 'code', 'item', 'nested', 'definition', 'paragraph'):
            out.append(dict(lines=lines, where=where, cfg={'optimise': False}, before='', after='', pieces=0))
            out.append(dict(lines=lines, where=where, cfg={'width': 10}, before='<p>x  y\nz</p>', after=' tail  text <p>a   b\n c</p>', pieces=3))
    out += [dict(html=h, cfg={}) for h in (
        '<pre>a <em>b\nc</em> d</pre><p>e   f</p>', '<pre>a<br>b</pre>', '<pre>a<!-- c -->  b</pre>', '<pre><code>a\n  b</code>\n  c</pre>',
        '<pre>a</pre><pre>b</pre>', '<pre>x  <span>y  <b>z   w</b>  </span>  v</pre> u  t', '<div> <pre> a </pre> </div>', '<pre></pre><p>a  b</p>',
        '<pre>a  <pre>b  c</pre>  d</pre>  e  f', '<pre>a</p>  b</pre>', '<pre>un  closed\n text', '<pre>a &#32;&#9;&lt;b&gt; &eacute;</pre>',
        '<p>x<pre>a   b</pre>y   z</p>', '<pre>a\n</pre><p>b</p>', '<pre>\na</pre>')]
    out += large.cases('<pre')
    return out


def make(rng, i, tier):
    if i % 4 == 3:
        return mixed(rng)
    lines = [line(rng) for _ in range(rng.choice([1, 2, 3, 6]))]
    cfg = {}
    if rng.random() < .6:
        cfg['optimise'] = False
    if rng.random() < .6:
        cfg['width'] = rng.choice([5, 20, 40, 67, 80])
    if rng.random() < .3:
        cfg['renderers'] = {'pre': ['Pre', dict(indent=rng.choice([0, 1, 2, 8]))]}
        if rng.random() < .4:
            cfg['renderers']['pre'][1]['line_template'] = rng.choice(['| {}', '{} $', '{{{}}}'])
    side = lambda: rng.choice(['', '', '<p>one  two\n three</p>', 'bare  text\n here', '\n  ', '<ul><li>a   b</li></ul>'])
    return dict(lines=lines, where=rng.choice(['top', 'top', 'div', 'quote', 'code', 'spans'] + list(INSIDE)), cfg=cfg, before=side(), after=side(),
                pieces=rng.choice([0, 0, rng.randint(1, 1000)]), marks=rng.randint(0, 10 ** 6))


def mixed(rng):
    d = gen.Doc(rng, words=(1, 4), br=.1)
    kids = []
    for _ in range(rng.randint(1, 4)):
        if rng.random() < .5:
            kids.append(_html.escape('\n'.join(line(rng) for _ in range(rng.randint(1, 3)))))
        else:
            kids.append((rng.choice(['em', 'b', 'code', 'span', 'u', 'x-y']), {}, [_html.escape(line(rng) + rng.choice(['', '\n']) + line(rng))]))
    nodes = [('p', {}, d.inline(1)), ('pre', {}, kids), ('p', {}, d.inline(1))]
    x = rng.random()
    if x < .2:
        nodes = [(rng.choice(['div', 'blockquote']), {}, nodes)]
    elif x < .5:
        t = rng.choice(['ul', 'ol'])
        nodes = [(t, {}, [('li', {}, d.inline(1)), ('li', {}, nodes), ('li', {}, [(t, {}, [('li', {}, nodes[1:])])])])]
    return dict(html=gen.serialize(nodes), cfg=rng.choice([{}, dict(width=30), dict(optimise=False)]))


def spans(lines, seed):
    """the same text with highlighter-like spans around some of its words"""
    import random
    rng = random.Random(seed)
    deep = rng.choice([1, 1, 2, 4, 8])
    out = []
    for l in lines:
        parts = []
        for w in l.split(' '):
            e = _html.escape(w)
            if w and rng.random() < .5:
                for _ in range(rng.randint(1, deep)):
                    e = rng.choice(['<span class="k">%s</span>', '<span>%s</span>', '<x-t>%s</x-t>', '<kbd>%s</kbd>']) % e
            parts.append(e)
        out.append(' '.join(parts))
    s = '\n'.join(out)
    for _ in range(rng.choice([0, 0, 1, 3, 7])):
        # all of it inside further elements
        t = rng.choice(['span', 'x-y', 'samp'])
        s = '<%s>' % t + s + '</%s>' % t
    return s


def judge(case, obs):
    cfg = case['cfg']
    if 'html' in case:
        obs.nontrivial()
        return oracle.like_model(case['html'], cfg, obs, exact=not cfg.get('optimise', True))[0]
    lines = case['lines']
    text = _html.escape('\n'.join(lines))
    where = case['where']
    if where == 'code':
        pre = '<pre><code>%s</code></pre>' % text
    elif where == 'spans':
        pre = '<pre><code class="x">%s</code></pre>' % spans(lines, case['marks'])
    else:
        pre = '<pre>%s</pre>' % text
    around, more = INSIDE.get(where, ('%s', 0))
    around = {'div': '<div>%s</div>', 'quote': '<blockquote>%s</blockquote>'}.get(where, around)
    html = case['before'] + around % pre + case['after']
    if where in INSIDE:
        obs.count('inside reflowed blocks')
    pieces = None
    if case['pieces']:
        n = 1 + case['pieces'] % 7
        pieces = [html[k:k + n] for k in range(0, len(html), n)]
        obs.count('fed in pieces')
    out = oracle.text(html, cfg, obs, pieces)
    s = dict(indent=4, line_template='{}')
    s.update(((cfg.get('renderers') or {}).get('pre') or [0, {}])[1])
    body = ref.lines_of('\n'.join(lines))
    optimise = cfg.get('optimise', True)
    got = out.split('\n')
    if optimise:
        got = [l.rstrip() for l in got]
    # the block of lines must stand in the output as it is
    want = []
    for l in body:
        want.append(' ' * s['indent'] + s['line_template'].format(l))
        obs.count('verbatim lines')
        if not l.strip():
            obs.count('blank lines')
        if len(l) > cfg.get('width', 67):
            obs.count('lines wider than the page')
    obs.nontrivial(len(body) > 1 or any('  ' in l for l in body))
    if where == 'quote':
        want = ['> ' + w for w in want]
    want = [' ' * more + w for w in want]
    model = ref.render(html, cfg)
    same = lambda g, w: g.rstrip(' ') == w.rstrip(' ') if not optimise else g.rstrip() == w.rstrip()
    found = any(all(same(got[k + j], want[j]) for j in range(len(want))) for k in range(len(got) - len(want) + 1))
    if want and not found:
        return 'the preformatted lines %r are not in the output %r' % (want, got)
    return oracle.first_difference(ref.rstrip_lines(model.text), ref.rstrip_lines(out))
