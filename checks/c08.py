"""C08 lines are wrapped greedily within the width, ignoring escapes"""
import html as _html
import random
import textwrap

from vlib import oracle, real, words

ID = 'C08'
TECHNIQUE = 'runtime monitoring: wrapped lines compared with the standard library wrapping of the visible text, escape sequences tracked character by character'
LEVEL_NOTE = ('The standard library is the oracle for visible text; a tracker checks that every escape sequence stays between the same visible characters, whole and in order. '
              'Both the wrapping helper and rendered paragraphs, list items and definitions are observed. Exploration of seeded texts, widths and options.')
RULE = ('Random texts (hyphens, dashes, sentence ends, long words, Unicode, runs of white space) with and without escape sequences at random places, widths 1 to 100, all wrapping options, '
        'through the left justification helper and through rendered blocks. Non-trivial: at least two lines.')
COUNT = {'quick': 120000, 'thorough': 2000000}
REQUIRED = {'lines': 300000, 'escape sequences tracked': 100000, 'broken words': 10000, 'rendered blocks': 15000, 'blocks with inline elements': 7000, 'texts with escapes': 20000}


def options(rng):
    o = {}
    if rng.random() < .4:
        o['initial_indent'] = ' ' * rng.randint(0, 8)
    if rng.random() < .4:
        o['subsequent_indent'] = ' ' * rng.randint(0, 8)
    for k in ('fix_sentence_endings', 'break_long_words', 'break_on_hyphens'):
        if rng.random() < .4:
            o[k] = rng.random() < .5
    return o


def fixed():
    out = []
    for html in ('a\tb', 'ab\tcd\te'):
        for o in ({}, {'tabsize': 4}, {'expand_tabs': False}):
            out.append(dict(how='helper', text='\x1b[1m' + html.replace('\t', '\x1b[0m\t\x1b[31m') + '\n\x1b[4mx\ty', width=40, options=o))
    for t in ('', ' ', 'a', 'aa bb', 'a-b-c-d', 'End. Next one.', 'x' * 30, '\x1b[1mbold\x1b[22m text here', 'a \x1b[1mb\x1b[22m', 'x' * 5 + '\x1b[1m' + 'y' * 5 + '\x1b[22m z', '\x1b[1m' * 20 + 'a b',
              'one \x1b[31m \x1b[39m two', 'End.\x1b[0m Next', 'well-\x1b[1mknown\x1b[22m-word', '\x1b[38;2;1;2;3mab cd ef\x1b[39m gh', 'a b c\x1b[0m'):
        for w in (1, 2, 3, 5, 8, 20):
            for o in ({}, {'fix_sentence_endings': True}, {'break_long_words': False}, {'break_on_hyphens': False}):
                out.append(dict(how='helper', text=t, width=w, options=o))
    return out


def make(rng, i, tier):
    if i % 6 == 0:
        t = ' '.join(words.plain(rng).split(' '))
        t = ' '.join(x for x in t.replace('\t', ' ').replace('\n', ' ').replace('\r', ' ').replace('\x0b', ' ').replace('\x0c', ' ').split(' ') if x)
        o = options(rng)
        o['initial_indent'] = len(o.get('initial_indent', ''))
        o['subsequent_indent'] = len(o.get('subsequent_indent', ''))
        if rng.random() < .1:
            o['drop_whitespace'] = rng.random() < .3
        return dict(how=rng.choice(['p', 'li', 'dd', 'p']), text=t, inline=rng.randint(1, 1 << 30) if rng.random() < .6 else 0, width=rng.choice([rng.randint(10, 30), rng.randint(20, 100)]), options=o)
    o = options(rng)
    esc = rng.random() < .5
    for k in ('drop_whitespace', 'replace_whitespace', 'expand_tabs'):
        if rng.random() < .15:
            o[k] = rng.random() < .5
    if rng.random() < .1:
        o['tabsize'] = rng.randint(1, 9)
    if not esc and rng.random() < .05:
        o['max_lines'] = rng.randint(1, 4)
        o['placeholder'] = rng.choice([' [...]', '...', ''])
    return dict(how='helper', text=words.escaped(rng, rng.random() < .3) if esc else words.plain(rng), width=rng.choice([rng.randint(1, 12), rng.randint(5, 40), rng.randint(20, 100)]), options=o)


def judge(case, obs):
    text, width, o = case['text'], case['width'], case['options']
    visible = words.strip(text)
    if case['how'] != 'helper':
        return block(case, obs)
    if max(len(o.get('initial_indent', '')), len(o.get('subsequent_indent', ''))) >= width and (visible[:1].isspace() or not o.get('drop_whitespace', True)):
        # (the standard library never returns; the code under test has to)
        try:
            real.load()[1].left_justify(text, width, **o)
        except ValueError:
            pass
        obs.count('indents wider than the line')
        return None
    try:
        want = textwrap.wrap(visible, width, **o)
    except ValueError as e:
        obs.count('impossible options')
        return None
    try:
        got = real.load()[1].left_justify(text, width, **o)
    except Exception as e:
        raise real.RealError(e)
    obs.nontrivial(len(want) > 1)
    obs.count('lines', len(want))
    glued, shown = '\n'.join(want), words.strip(got)
    if not visible.strip():
        glued, shown = glued.rstrip(' '), shown.rstrip(' ')     # (an indent before nothing)
    message = oracle.first_difference(glued, shown)
    if message:
        return 'the visible text is not wrapped as the standard library wraps it: ' + message
    if text != visible:
        obs.count('texts with escapes')
        a, b = words.attached(text), words.attached(got)
        n = len(words.ESCAPE.findall(text))
        obs.count('escape sequences tracked', n)
        if a != b:
            k = next((i for i in range(min(len(a[0]), len(b[0]))) if a[0][i] != b[0][i]), None)
            if k is not None:
                return 'before visible character %d the escape sequences are %r, expected %r' % (k, b[0][k], a[0][k])
            return 'the escape sequences after the last character are %r, expected %r' % (b[1], a[1])
    # direct monitors
    if len(want) > 1 and any(not a[-1:].isspace() and not b[:1].isspace() and a[-1:] != '-' for a, b in zip(want, want[1:])):
        obs.count('broken words')
    if o.get('break_long_words', True) and max(len(o.get('initial_indent', '')), len(o.get('subsequent_indent', ''))) < width and 'max_lines' not in o:
        long = [l for l in got.split('\n') if words.vlen(l) > width]
        if long and o.get('replace_whitespace', True):
            return 'a line is wider than %d: %r' % (width, long[0])
    return None


MARKS = {'em': '_', 'code': '`', 'strong': '**', 'del': '~~', 'span': '', 'kbd': ''}


def inline(text, seed):
    """-> source with some of the words in inline elements, and the text it stands for"""
    if not seed:
        return _html.escape(text), text
    rng = random.Random(seed)
    source, shown = [], []
    rest = text.split(' ')
    while rest:
        n = rng.choice([1, 1, 1, 2, 5])
        part, rest = ' '.join(rest[:n]), rest[n:]
        if part.strip() and (rest or source) and rng.random() < .2:
            tag = rng.choice(list(MARKS))
            source.append('<%s>%s</%s>' % (tag, _html.escape(part), tag))
            shown.append(MARKS[tag] + part + MARKS[tag])
        else:
            source.append(_html.escape(part))
            shown.append(part)
    return ' '.join(source), ' '.join(shown)


def block(case, obs):
    text, width, o = case['text'].strip(), case['width'], dict(case['options'])
    tag = case['how']
    kind = {'p': 'Paragraph', 'li': 'ListItem', 'dd': 'DefinitionListItem'}[tag]
    source, text = inline(text, case.get('inline'))
    if case.get('inline'):
        obs.count('blocks with inline elements')
    html = {'p': '<p>%s</p>', 'li': '<ul><li>%s</li></ul>', 'dd': '<dl><dd>%s</dd></dl>'}[tag] % source
    out = oracle.text(html, dict(width=width, renderers={tag: [kind, o]}), obs)
    k = dict(o)
    for x in ('initial_indent', 'subsequent_indent'):
        k[x] = ' ' * k.get(x, 0)
    k.setdefault('fix_sentence_endings', True)
    if not text:
        return None
    inner = width - (0 if tag == 'p' else 2)
    rows = textwrap.wrap(text, inner, **k) or ['']
    if tag != 'p':
        rows = [{'li': '* ', 'dd': ': '}[tag] + rows[0]] + ['  ' + r for r in rows[1:]]
    obs.count('rendered blocks')
    obs.count('lines', len(rows))
    obs.nontrivial(len(rows) > 1)
    return oracle.first_difference('\n'.join(r.rstrip() for r in rows).strip('\n'), '\n'.join(l.rstrip() for l in out.split('\n')).strip('\n'))
