"""C16 headings show level, decoration and underline exactly"""
import html as _html

from vlib import gen, large, oracle, sgr

ID = 'C16'
TECHNIQUE = 'runtime monitoring: lines of rendered headings compared with an independent composition of the configured decorations'
LEVEL_NOTE = ('A direct monitor recomputes heading text, underline and alignment from the settings for single headings; documents with headings between and '
              'inside other blocks are compared with a reference layout. Exploration of seeded random contents, settings and widths.')
RULE = ('Headings of all levels with random content (inline markup, hostile characters) and random combinations of template, capitals, spacing, centring '
        'and underline, at top level and inside boxes. Non-trivial: a configured decoration, inline markup or an enclosing block.')
COUNT = {'quick': 60000, 'thorough': 900000}
REQUIRED = {'underlined': 8000, 'centred': 8000, 'spread': 8000, 'default headings': 5000, 'headings in blocks': 3000, 'headings of several lines': 1000, 'dt headings': 300, 'styled headings': 5000, 'links of headings': 1000}

ALL = dict(template='{}', capitalized=False, spread=0, spread_char=' ', centered=False, underlined=False, underline_char='=', underline_full=False)


def settings(rng):
    s = {}
    if rng.random() < .5:
        s['template'] = rng.choice(['{}', '== {} ==', '# {}', '<{}>', '{{{}}}', '{} ', '%{}%'])
    if rng.random() < .35:
        s['capitalized'] = True
    if rng.random() < .4:
        s['spread'] = rng.choice([1, 1, 2, 3, 5])
        if rng.random() < .6:
            s['spread_char'] = rng.choice([' ', '-', '.', '\u00b7', 'ab', '{}', 'x'])
    if rng.random() < .5:
        s['centered'] = True
    if rng.random() < .6:
        s['underlined'] = True
        if rng.random() < .6:
            s['underline_char'] = rng.choice(['=', '-', '~', '\u2500', '*'])
        if rng.random() < .4:
            s['underline_full'] = True
    if rng.random() < .3:
        s['margin'] = [rng.randint(0, 3), rng.choice([0, 0, 3]), rng.randint(0, 3), rng.choice([0, 0, 4])]
    return s


def fixed():
    out = []
    for n in range(1, 7):
        out.append(dict(level=n, text='Title', settings=None, width=67))
        out.append(dict(html='<p>a</p><h%d>t <em>u</em></h%d><p>b</p>' % (n, n), cfg={}))
        for s in (dict(underlined=True), dict(underlined=True, underline_full=True), dict(centered=True), dict(centered=True, underlined=True),
                  dict(capitalized=True), dict(spread=1), dict(spread=2, spread_char='-', underlined=True, centered=True),
                  dict(template='== {} ==', capitalized=True, spread=1, centered=True, underlined=True, underline_char='-')):
            for t in ('A', 'Ab', 'Hello World', 'x' * 66, 'x' * 67, 'x' * 80, 'stra\u00dfe', '{} %s'):
                out.append(dict(level=n, text=t, settings=s, width=67))
                out.append(dict(level=n, text=t, settings=s, width=40))
                out.append(dict(level=n, text=t, settings=s, width=40, styled=[0], style=dict(bold=True, foreground_colour=9)))
    out += large.cases('<h')
    return out


def make(rng, i, tier):
    if i % 3 == 0:
        return nested(rng)
    words = []
    for _ in range(rng.choice([1, 1, 2, 3, 6])):
        words.append(rng.choice(['{}', '{0}', '%', '\\n', '#', '##', '&', '<', '\u00df', '\u0133', '\ufb01', '\u4e2d'])
                     if rng.random() < .15 else gen.word(rng))
    text = rng.choice([' '.join(words), ' '.join(words).title()])
    case = dict(level=rng.randint(1, 6), text=text, settings=settings(rng) if rng.random() < .75 else None, width=rng.choice([12, 30, 40, 67, 67, 80, 81]))
    if rng.random() < .3:
        case['styled'] = [k for k in range(len(words)) if rng.random() < .5]
        case['style'] = rng.choice([dict(bold=True), dict(underline=True, foreground_colour='red'), dict(background_colour=200, normalise=True), dict(foreground_colour='#abc')])
    return case


def nested(rng):
    d = gen.Doc(rng, words=(1, 3), br=rng.choice([0, .15]), attrs=.1, links=rng.choice([0, .3]), images=rng.choice([0, .2]))
    h = lambda: ('h%d' % rng.randint(1, 6), d.attrs(), d.inline(rng.choice([0, 1, 2])))
    nodes = [h(), ('p', {}, d.inline(1)), h(), h()]
    if rng.random() < .6:
        nodes = [(rng.choice(['div', 'blockquote', 'section']), {}, nodes)]
    if rng.random() < .3:
        nodes = [('ul', {}, [('li', {}, nodes)])]
    if rng.random() < .25:
        nodes.append(('dl', {}, [('dt', {}, d.inline(1)), ('dd', {}, [d.text()]), ('dt', {}, d.inline(0)), ('dd', {}, [h()])]))
    r = {}
    for tag in ('h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'dt', 'blockquote h2', 'h1 + p', 'div > h3'):
        if rng.random() < .4 and tag != 'h1 + p':
            r[tag] = [rng.choice(['Header', 'Header', 'MarkdownHeader']) if tag != 'dt' else 'DefinitionListTermHeader', settings(rng)]
            if rng.random() < .2:
                r[tag][1].update(gen.box_settings(rng))
    return dict(html=gen.serialize(nodes, rng, rng.choice([0, .5])), cfg=dict(renderers=r, width=rng.choice([67, 80, 100]), link_placement=rng.choice(['footer', 'after_block', 'inline']),
                                                                          image_placement=rng.choice(['inline', 'after_block', 'footer'])))


def sequences(case, out):
    """each styled word has its sequences, in one piece, and nothing is left of them at the end"""
    want = 0
    if case.get('styled'):
        want = len(case['styled']) * (sgr.sequences(case['style']) + (1 if case['style'].get('normalise') else sgr.sequences(case['style'])))
    try:
        got, final, n = sgr.scan(out)
    except sgr.BadSequence as e:
        return 'not a standard sequence: %r in %r' % (str(e), out)
    if n != want or final:
        return '%d escape sequences, expected %d, and %s at the end of %r' % (n, want, final, out)
    return None


def judge(case, obs):
    if 'html' in case:
        message, _, model = oracle.like_model(case['html'], case['cfg'], obs)
        n = sum(1 for _, k in model.rendered if 'Header' in k)
        obs.count('headings in blocks', n)
        obs.count('links of headings', sum(1 for _, l in model.entries if l.parent.tag in ('h1', 'h2', 'h3', 'h4', 'h5', 'h6', 'dt')))
        if '<br' in case['html']:
            obs.count('headings of several lines')
        obs.count('dt headings', sum(1 for _, k in model.rendered if k == 'DefinitionListTermHeader'))
        obs.nontrivial(n)
        return None if model.clamped else message
    text, n, width = ' '.join(case['text'].split()), case['level'], case['width']
    tag = 'h%d' % n
    pieces = [_html.escape(w) for w in text.split(' ')]
    cfg = dict(width=width, renderers={})
    if case.get('styled'):
        obs.count('styled headings')
        cfg['renderers']['kbd'] = ['AnsiEscapeCode', case['style']]
        for k in case['styled']:
            pieces[k] = '<kbd>%s</kbd>' % pieces[k]
    html = '<%s>%s</%s>' % (tag, ' '.join(pieces), tag)
    if case['settings'] is None:
        out = oracle.text('<p>.</p>' + html + '<p>.</p>', cfg, obs)
        message = sequences(case, out)
        if message:
            return message
        out = sgr.strip(out)
        obs.count('default headings')
        want = '\n.\n\n%s %s %s\n\n.\n' % ('#' * n, text, '#' * n)
        return None if out == want else 'expected %r, got %r' % (want, out)
    s = dict(ALL, margin=[1, 0, 1, 0])
    s.update(case['settings'])
    out = oracle.text(html, dict(cfg, renderers=dict(cfg['renderers'], **{tag: ['Header', case['settings']]}), optimise=False), obs)
    message = sequences(case, out)
    if message:
        return message
    out = sgr.strip(out)
    obs.nontrivial(bool(case['settings']))
    m = s['margin']
    body = out
    if not body.startswith('\n' * m[0]) or not body.endswith('\n' * m[2]):
        return 'margins %s missing around %r' % (m, out)
    body = body[m[0]:len(body) - m[2]]
    lines = body.split('\n')
    if s['underlined']:
        obs.count('underlined')
    if s['centered']:
        obs.count('centred')
    if s['spread']:
        obs.count('spread')
    t = text.upper() if s['capitalized'] else text
    if s['spread']:
        t = (s['spread_char'] * s['spread']).join(t)
    t = s['template'].format(t)
    if len(lines) != (2 if s['underlined'] else 1):
        return 'expected %d lines, got %r' % (2 if s['underlined'] else 1, lines)
    avail = width - m[1] - m[3]
    if any(not l.startswith(' ' * m[3]) for l in lines):
        return 'left margin missing: %r' % lines
    lines = [l[m[3]:] for l in lines]
    if any(len(l) != avail for l in lines) and len(t) <= avail:
        return 'lines are not %d wide: %r' % (avail, lines)
    rows = [t]
    if s['underlined']:
        rows.append(s['underline_char'] * (avail if s['underline_full'] else len(t)))
    lefts = []
    for row, l in zip(rows, lines):
        if len(row) > avail:
            if l.rstrip() != row.rstrip():
                return 'expected %r, got %r' % (row, l)
            continue
        if s['centered']:
            # (spaces at the ends of the content count as content)
            left = next((k for k in ((avail - len(row)) // 2, (avail - len(row) + 1) // 2)
                         if l == ' ' * k + row + ' ' * (avail - len(row) - k)), None)
        else:
            left = 0 if l == row + ' ' * (avail - len(row)) else None
        if left is None:
            return 'expected %r %s in %d columns, got %r' % (row, 'centred' if s['centered'] else 'at the left', avail, l)
        lefts.append(left)
    if len(lefts) == 2 and not s['underline_full'] and lefts[0] != lefts[1]:
        return 'the underline is not aligned with the heading: %r' % lines
    return None
