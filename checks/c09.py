"""C09 justification aligns lines and changes nothing but spaces"""
import html as _html
import textwrap

from vlib import large, oracle, real, words

ID = 'C09'
TECHNIQUE = 'runtime monitoring: alignment monitor over justified lines (edges, gap widths, word distribution) against the plain wrapping of the same text'
LEVEL_NOTE = ('Each line returned by the justification helpers, and each line of rendered paragraphs, list items and definitions, is checked for its edges, gap widths and words '
              'against the standard library wrapping of the visible text; escape sequences must stay between the same characters. Exploration of seeded texts and widths.')
RULE = ('Random texts with and without escape sequences, widths 1 to 100, indents and sentence spacing, all five justifications, through the helpers and through rendered blocks. '
        'Non-trivial: a text of at least two lines.')
COUNT = {'quick': 100000, 'thorough': 1500000}
REQUIRED = {'lines filled to the width': 80000, 'lines without a gap': 1000, 'right aligned lines': 30000, 'centred lines': 30000, 'texts with escapes': 15000, 'rendered blocks': 10000,
            'lines with double spaces': 3000, 'indented lines': 20000}
HOWS = ['full', 'right', 'center', 'left']


def options(rng):
    o = {}
    if rng.random() < .4:
        o['initial_indent'] = rng.randint(0, 7)
    if rng.random() < .4:
        o['subsequent_indent'] = rng.randint(0, 5)
    for k in ('fix_sentence_endings', 'break_long_words'):
        if rng.random() < .4:
            o[k] = rng.random() < .5
    return o


def fixed():
    out = []
    for t in ('', 'a', 'a b', 'aaa bb c dddd ee fff g hhhh', 'End. Next one. And then some more text here.', 'x' * 30 + ' a b c', 'a ' * 40 + 'b', 'one two three four', '\x1b[1mone two\x1b[22m three four five six'):
        for w in (1, 2, 3, 5, 7, 8, 9, 10, 11, 20, 21, 22, 40):
            for how in HOWS:
                for o in ({}, {'initial_indent': 3}, {'subsequent_indent': 2}, {'fix_sentence_endings': True}):
                    out.append(dict(via='helper', how=how, text=t, width=w, options=o))
    out += [dict(via=via, how=how, text=large.text(n), width=w, options={}) for n in (80, 300) for w in (120, 160, 250, 400) for how in HOWS for via in ('helper', 'p', 'li', 'dd')]
    return out


def make(rng, i, tier):
    how = rng.choice(HOWS + ['full', 'full'])
    o = options(rng)
    t = words.escaped(rng) if rng.random() < .3 else words.plain(rng, tabs=False)
    # (a no-break space at the edge of a word may end up at the edge of a line, where it counts as white space)
    t = ' '.join(x.strip('\u00a0') for x in words.strip(t).split(' ') if x.strip('\u00a0')) if '\u00a0' in t else ' '.join(x for x in t.split(' ') if x)
    if i % 6 == 0:
        t = ' '.join(x for x in words.strip(t).split(' ') if x).strip()
        return dict(via=rng.choice(['p', 'p', 'li', 'dd']), how=how, text=t, width=rng.choice([rng.randint(12, 30), rng.randint(20, 100)]), options=o)
    return dict(via='helper', how=how, text=t, width=rng.choice([rng.randint(8, 12), rng.randint(8, 40), rng.randint(20, 100)]), options=o)


def kw(o):
    k = dict(o)
    for x in ('initial_indent', 'subsequent_indent'):
        k[x] = ' ' * k.get(x, 0)
    return k


def aligned(how, width, plain, lines, obs):
    """-> message if the lines are not the justified form of the plain ones"""
    if len(plain) != len(lines):
        return '%d lines instead of %d' % (len(lines), len(plain))
    for n, (p, l) in enumerate(zip(plain, lines), 1):
        if p.split() != l.split():
            return 'line %d has the words %r, wrapped it has %r' % (n, l.split(), p.split())
        last = n == len(lines)
        indent = len(p) - len(p.lstrip(' '))
        body = p.strip(' ')
        missing = width - len(p)
        if how == 'left' or (how == 'full' and (last or missing <= 0 or ' ' not in body)):
            if l != p:
                return 'line %d is %r, expected %r' % (n, l, p)
            if how == 'full' and not last and missing > 0:
                obs.count('lines without a gap')
        elif how == 'right':
            if l != ' ' * missing + p:
                return 'line %d is %r, expected %r at the right edge of %d' % (n, l, p, width)
            obs.count('right aligned lines')
        elif how == 'center':
            if p not in l or (missing > 0 and len(l) != width and len(l.rstrip()) > width):
                return 'line %d is %r, expected %r centred in %d' % (n, l, p, width)
            left = l.index(p[:1]) if p else 0
            left = len(l) - len(l.lstrip(' ')) - indent
            right = width - left - len(p)
            if missing > 0 and abs(left - right) > 1:
                return 'line %d has %d spaces before and %d after: %r' % (n, left, right, l)
            if missing <= 0 and l != p:
                return 'line %d is %r, expected %r' % (n, l, p)
            obs.count('centred lines')
        else:
            if len(l) != width:
                return 'line %d is %d wide instead of %d: %r' % (n, len(l), width, l)
            if len(l) - len(l.lstrip(' ')) != indent:
                return 'line %d is indented by %d instead of %d: %r' % (n, len(l) - len(l.lstrip(' ')), indent, l)
            a, b = gaps(body), gaps(l.strip(' '))
            each, extra = divmod(missing, sum(a))
            for x, y in zip(a, b):
                if not x * (1 + each) <= y <= x * (1 + each + (1 if extra else 0)):
                    return 'line %d has gaps %s, wrapped they are %s: %r' % (n, b, a, l)
            obs.count('lines filled to the width')
            if max(a) > 1:
                obs.count('lines with double spaces')
            if indent:
                obs.count('indented lines')
    return None


def gaps(s):
    out, n = [], 0
    for c in s:
        if c == ' ':
            n += 1
        elif n:
            out.append(n)
            n = 0
    return out


def judge(case, obs):
    text, width, how, o = case['text'], case['width'], case['how'], case['options']
    if case['via'] != 'helper':
        return block(case, obs)
    k = kw(o)
    visible = words.strip(text)
    if max(len(k['initial_indent']), len(k['subsequent_indent'])) >= width:
        return None
    plain = textwrap.wrap(visible, width, **k)
    try:
        got = getattr(real.load()[1], how + '_justify')(text, width, **k)
    except Exception as e:
        raise real.RealError(e)
    obs.nontrivial(len(plain) > 1)
    if text != visible:
        obs.count('texts with escapes')
        a, b = words.attached(text), words.attached(got)
        if a != b:
            return 'the escape sequences moved: %r became %r' % (text, got)
    if not visible.strip():
        return None
    return aligned(how, width, plain, words.strip(got).split('\n'), obs)


def block(case, obs):
    text, width, how, o = case['text'], case['width'], case['how'], dict(case['options'])
    if not text:
        return None
    tag = case['via']
    kind = {'p': 'Paragraph', 'li': 'ListItem', 'dd': 'DefinitionListItem'}[tag]
    html = {'p': '<p>%s</p>', 'li': '<ul><li>%s</li></ul>', 'dd': '<dl><dd>%s</dd></dl>'}[tag] % _html.escape(text)
    out = oracle.text(html, dict(width=width, optimise=False, renderers={tag: [kind, dict(o, justification=how)]}), obs)
    k = kw(o)
    k.setdefault('fix_sentence_endings', True)
    inner = width - (0 if tag == 'p' else 2)
    plain = textwrap.wrap(text, inner, **k)
    if any(p.endswith(' ') for p in plain):
        return None     # (a word that starts to be broken at the very end of a line; told apart by the helpers only)
    rows = out.split('\n')
    while rows and not rows[0].strip():
        rows.pop(0)
    while rows and not rows[-1].strip():
        rows.pop()
    marker = {'p': '', 'li': '* ', 'dd': ': '}[tag]
    got = []
    for n, r in enumerate(rows):
        m = marker if n == 0 else ' ' * len(marker)
        if not r.startswith(m):
            return 'line %d does not start with %r: %r' % (n + 1, m, r)
        r = r[len(m):]
        got.append(r if how == 'full' and len(r) == inner and r[-1:] != ' ' else r.rstrip(' '))
    obs.count('rendered blocks')
    obs.nontrivial(len(plain) > 1)
    if how == 'center':
        got = [g + ' ' * (inner - len(g)) for g in got]
    return aligned(how, inner, plain, got, obs)
