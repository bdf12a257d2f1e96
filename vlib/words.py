"""Text with and without escape sequences, for the wrapping and justification checks."""
import re

from . import gen

ESCAPE = re.compile('\x1b\\[[;\\d]*m')
CODES = ['\x1b[1m', '\x1b[22m', '\x1b[31m', '\x1b[39m', '\x1b[38;5;0m', '\x1b[38;2;1;2;3m', '\x1b[0m', '\x1b[m', '\x1b[4m\x1b[53m', '\x1b[48;5;255m', '\x1b[1;2;3;4m', '\x1b[;1m', '\x1b[1;m', '\x1b[;m', '\x1b[38;5;;1m']
WORDS = ['a', 'I', 'be', 'the', 'cat', 'sat.', 'Sat!', 'end.', 'end?', 'said."', "it's", 'well-known', 'state-of-the-art', '--', 'em--dash', '-', '-x', '--opt', 'x-', 'a-b', '1-2', 'http://h.org/a-b/c.d',
         'U.S.A.', 'etc.', '...', '(x)', '[1]', '"Quote', 'quote."', '.', '!', 'é', 'naïve', '中文字', 'привет-мир', '\u00a0', 'a\u00a0b', 'soft\u00adhyphen', '\u2014', 'a\u2014b', 'a\u200bb', '😀', 'e\u0301', 'end.)', 'm', '[0m', '[31m', '31m',
         'x' * 12, 'y' * 40, 'long-' * 9, 'z' * 100, 'a.b.c', 'Mr.', 'i.e.', 'X', 'end.\'', '{}', '%s', '\\']


def strip(s):
    return ESCAPE.sub('', s)


def vlen(s):
    return len(strip(s))


def plain(rng, tabs=True):
    out = []
    n = rng.choice([0, 1, 2, 5, 10, 20, 20, 60])
    for i in range(n):
        out.append(rng.choice(WORDS) if rng.random() < .35 else gen.word(rng, 1, 9) + rng.choice(['', '', '', '.', ',', '!', '.']))
        out.append(rng.choice([' '] * 8 + ['  ', '   ', ''] + (['\t', '\n', ' \n ', '\x0b', '\r\n', '\x0c'] if tabs and rng.random() < .3 else [])))
    if n and rng.random() < .7:
        out.pop()
    if rng.random() < .1:
        out.insert(0, ' ' * rng.randint(1, 5))
    return ''.join(out)


def escaped(rng, tabs=False):
    """-> text with escape sequences anywhere"""
    t = plain(rng, tabs)
    out = []
    density = rng.choice([.02, .1, .4])
    place = rng.choice(['anywhere', 'words', 'spaces'])
    prev = ' '
    for c in t + ' ':
        edge = (c == ' ') != (prev == ' ')
        if (place == 'anywhere' or (place == 'words' and edge) or (place == 'spaces' and (c == ' ' or prev == ' '))) and rng.random() < (density if place == 'anywhere' else density * 3):
            out.append(''.join(rng.choice(CODES) for _ in range(rng.choice([1, 1, 2]))))
        out.append(c)
        prev = c
    return ''.join(out)[:-1]


def attached(s):
    """-> [(visible character that is not white space, escape sequences since the one before)], trailing sequences"""
    out, codes, pos = [], '', 0
    while pos < len(s):
        m = ESCAPE.match(s, pos)
        if m:
            codes += m.group()
            pos = m.end()
            continue
        if not s[pos].isspace():
            out.append((s[pos], codes))
            codes = ''
        pos += 1
    return out, codes
