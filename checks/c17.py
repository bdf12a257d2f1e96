"""C17 ANSI styling is balanced, correctly encoded and invisible"""
import html as _html
import random

from vlib import gen, oracle, ref, sgr

ID = 'C17'
TECHNIQUE = 'runtime monitoring: rendered output fed to an SGR terminal state machine that tracks the active style of every character'
LEVEL_NOTE = ('A terminal state machine decides visible text, style at every character and style at the end; the unstyled rendering of the same document '
              'must equal the styled one without escape sequences, through wrapping, justification and boxes. Exploration of seeded settings and documents.')
RULE = ('Elements with random effects, fonts, colours in every notation and normalisation, alone, nested and inside wrapped, justified and boxed blocks. '
        'Non-trivial: at least one style configured.')
COUNT = {'quick': 40000, 'thorough': 600000}
REQUIRED = {'styled characters': 100000, 'sequences': 50000, 'nested styles': 4000, 'styled documents': 4000, 'styled documents with links': 1000, 'colours': 20000}
ASSUMPTIONS = ['Inside a style that an inner element also sets, the terminal shows the default after the inner element, as the disabling sequence says.']

NAMES = sgr.NAMES + ['bright_' + n for n in sgr.NAMES]


def colour(rng):
    x = rng.random()
    if x < .3:
        return rng.choice(NAMES)
    if x < .55:
        return rng.choice([0, 1, 7, 8, 15, 16, 231, 232, 255, rng.randint(0, 255)])
    if x < .7:
        return [rng.choice([0, 255, rng.randint(0, 255)]) for _ in range(3)]
    digits = rng.choice(['0123456789abcdef', '0123456789ABCDEF'])
    return rng.choice(['#', '#', '#', '']) + ''.join(rng.choice(digits) for _ in range(rng.choice([3, 6])))


def style(rng):
    s = {}
    for e in sgr.EFFECTS:
        if rng.random() < rng.choice([.05, .3]):
            s[e] = True
    if rng.random() < .2:
        s['font'] = rng.randint(0, 9)
    if rng.random() < .5:
        s['foreground_colour'] = colour(rng)
    if rng.random() < .4:
        s['background_colour'] = colour(rng)
    if rng.random() < .2:
        s['normalise'] = True
    return s


def fixed():
    out = []
    for e in sgr.EFFECTS:
        for n in (False, True):
            out.append(dict(tree=['a', ['t0', ['b']], 'c'], styles=[{e: True, 'normalise': n}]))
    for f in range(10):
        out.append(dict(tree=[['t0', ['b']]], styles=[{'font': f}]))
    for c in NAMES + [0, 1, 128, 255, [0, 0, 0], [1, 2, 3], [255, 255, 255], '#fff', '#abc', '#123456', '#ABCDEF', 'abc', '00ff7f', '#000']:
        for k in ('foreground_colour', 'background_colour'):
            out.append(dict(tree=['a', ['t0', ['b']], 'c'], styles=[{k: c}]))
            out.append(dict(tree=['a', ['t0', ['b', ['t1', ['c']], 'd']], 'e'], styles=[{k: c, 'bold': True}, {'underline': True, 'font': 3}]))
    for h in ('<p><span> a b</span> c</p>', '<p> <span> a </span> </p>', '<p><span> </span>a</p>', '<p>a <span> b</span><span> </span> c</p>', '<ul><li><span><br></span>a</li></ul>', '<p><span></span><br><span><br></span>a</p>',
              '<p><a href="/x">a <span> b</span> <span> </span>c</a></p>', '<p><a href="/x"> <span> abc def</span> ghi </a></p>', '<p><a href="/x">abcdefgh <span> hijkl</span> m</a></p>', '<div><span></span><p>a</p></div>',
              '<h1><span> a</span></h1>', '<dl><dt><span> a </span></dt><dd><span> a<br> </span> b</dd></dl>', '<p>a<span><br></span></p><p>b</p>', '<blockquote><span> </span><br><span>a</span></blockquote>'):
        for s in ({'bold': True}, {'normalise': True, 'background_colour': 3}):
            for c in (dict(), dict(link_placement='inline'), dict(output_format='gophermap', gopher_host='h')):
                out.append(dict(html=h, cfg=c, style=s))
    return out


def make(rng, i, tier):
    if i % 4 == 0:
        d = gen.Doc(rng, wrapped=.06, inlines=['span', 'span', 'em'], words=(1, rng.choice([4, 15, 40])), depth=rng.choice([0, 1, 1, 2]), children=(1, 2), attrs=0, br=.05,
                    longword=rng.choice([0, 0, .05]), blocks=rng.sample(['p', 'p', 'div', 'ul', 'blockquote', 'dl', 'p'], 3), bare=0, hyphen=.05, punct=.3, links=rng.choice([0, 0, .3]))
        cfg = gen.config(rng, placements=False, styles=.7, boxes=.4)
        cfg['width'] = rng.choice([20, 40, 67, 67])
        cfg.pop('box', None)
        x = rng.random()
        if x < .2:
            cfg.update(output_format='gophermap', gopher_host='h')
        elif x < .5:
            cfg['link_placement'] = rng.choice(['inline', 'after_block'])
        return dict(html=gen.serialize(d.document()), cfg=cfg, style=style(rng))
    n = rng.choice([1, 1, 2, 3])
    styles = [style(rng) for _ in range(n)]
    if rng.random() < .15:
        styles[0]['capitalized'] = True

    def tree(depth):
        out = []
        for _ in range(rng.randint(1, 3)):
            if depth <= 0 or rng.random() < .4:
                if out and isinstance(out[-1], str):
                    continue
                out.append(rng.choice(['', ' ']) + gen.word(rng) + rng.choice(['', ' ', ' {} ', ' & ', '[0m', 'm']))
            else:
                out.append(['t%d' % rng.randrange(n), tree(depth - 1)])
        return out
    return dict(tree=tree(rng.choice([1, 1, 2, 3])), styles=styles)


def to_html(nodes):
    return ''.join(_html.escape(x) if isinstance(x, str) else '<%s>%s</%s>' % (x[0], to_html(x[1]), x[0]) for x in nodes)


def expected(nodes, styles, state, caps=False):
    """-> [(char, style)], style afterwards"""
    out = []
    for x in nodes:
        if isinstance(x, str):
            out += [(c, state) for c in (x.upper() if caps else x)]
        else:
            s = styles[int(x[0][1:])]
            inner, end = expected(x[1], styles, sgr.enter(state, s), caps or s.get('capitalized'))
            out += inner
            state = sgr.leave(end, s)
    return out, state


def count_elements(nodes, styles):
    return sum(sgr.sequences(styles[int(x[0][1:])]) + (1 if styles[int(x[0][1:])].get('normalise') else sgr.sequences(styles[int(x[0][1:])])) +
               count_elements(x[1], styles) for x in nodes if not isinstance(x, str))


def tuples(s):
    """as a caller would write them"""
    return {k: tuple(v) if isinstance(v, list) else v for k, v in s.items()}


def judge(case, obs):
    if 'html' in case:
        return document(case, obs)
    styles = case['styles']
    cfg = dict(renderers={'t%d' % k: ['AnsiEscapeCode', tuples(s)] for k, s in enumerate(styles)}, optimise=False)
    html = to_html(case['tree'])
    out = oracle.text('<wrap>' + html + '</wrap>', cfg, obs)
    import re
    squash = lambda ns: [re.sub('[ \t\n]+', ' ', x) if isinstance(x, str) else [x[0], squash(x[1])] for x in ns]
    want, end = expected(squash(case['tree']), styles, {})
    try:
        got, final, n = sgr.scan(out)
    except sgr.BadSequence as e:
        return 'not a standard sequence: %r in %r' % (str(e), out)
    obs.count('sequences', n)
    obs.count('styled characters', sum(1 for _, s in got if s))
    obs.count('colours', sum(1 for s in styles for k in ('foreground_colour', 'background_colour') if s.get(k) is not None))
    if any(not isinstance(x, str) and any(not isinstance(y, str) for y in x[1]) for x in case['tree']):
        obs.count('nested styles')
    obs.nontrivial(n)
    if ''.join(c for c, _ in got) != ''.join(c for c, _ in want):
        return 'visible text is %r, expected %r' % (''.join(c for c, _ in got), ''.join(c for c, _ in want))
    for k, ((c, a), (_, e)) in enumerate(zip(got, want)):
        if a != e:
            return 'character %d (%r) is shown as %s, expected %s in %r' % (k, c, a, e, out)
    if final:
        return 'style %s is still active at the end of %r' % (final, out)
    if n != count_elements(case['tree'], styles):
        return '%d escape sequences, expected %d: %r' % (n, count_elements(case['tree'], styles), out)
    return None


def document(case, obs):
    """styled spans inside laid out blocks: same text, and the style stays inside"""
    html, cfg, s = case['html'], dict(case['cfg']), case['style']
    plain = oracle.text(html, cfg, obs)
    r = dict(cfg.get('renderers') or {})
    r['span'] = ['AnsiEscapeCode', tuples(s)]
    styled = oracle.text(html, dict(cfg, renderers=r), obs)
    obs.count('styled documents')
    if '<a ' in html:
        obs.count('styled documents with links')
    obs.nontrivial(sgr.sequences(s) and '<span' in html)
    try:
        got, final, n = sgr.scan(styled)
    except sgr.BadSequence as e:
        return 'not a standard sequence: %r in %r' % (str(e), styled)
    obs.count('sequences', n)
    obs.count('styled characters', sum(1 for _, x in got if x))
    message = oracle.first_difference(ref.rstrip_lines(plain), ref.rstrip_lines(sgr.strip(styled)))
    if message:
        return 'without the escape sequences the styled output differs: ' + message
    if final:
        return 'style %s is still active at the end' % final
    # the words inside spans, and only they, are styled
    words = []

    def walk(n, inside, depth):
        for c in n.children:
            if c.tag is None:
                words.extend((ch, inside, depth) for ch in c.text if not ch.isspace())
            else:
                walk(c, inside or c.tag == 'span', depth + (c.tag == 'span'))
    root = ref.tree(html)
    walk(root, False, 0)
    letters = [(c, st) for c, st in got if c.isalpha()]
    want = [(c, i) for c, i, _ in words if c.isalpha()]
    caps = any(spec[1].get('capitalized') for spec in r.values() if isinstance(spec[1], dict))
    nested = any(d > 1 for _, _, d in words)
    if len(letters) == len(want) and not caps and not nested and sgr.sequences(s):
        on = sgr.enter({}, s)
        for k, ((c, st), (e, inside)) in enumerate(zip(letters, want)):
            if c != e:
                return 'letter %d is %r, expected %r' % (k, c, e)
            if st != (on if inside else {}):
                return 'letter %d (%r) is shown as %s, expected %s' % (k, c, st, on if inside else {})
        obs.count('letters with the right style', len(letters))
    return None
