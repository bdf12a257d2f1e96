"""An SGR terminal: which style is active at every visible character."""
import re

ESC = re.compile(r'\x1b\[([;\d]*)m')
NAMES = ['black', 'red', 'green', 'yellow', 'blue', 'magenta', 'cyan', 'white']
ON = {1: 'bold', 2: 'faint', 3: 'italic', 20: 'fraktur', 4: 'underline', 5: 'slow_blink', 6: 'rapid_blink', 7: 'invert', 8: 'conceal',
      9: 'crossed_out', 51: 'framed', 52: 'encircled', 53: 'overlined'}
OFF = {22: ('bold', 'faint'), 23: ('italic', 'fraktur'), 24: ('underline',), 25: ('slow_blink', 'rapid_blink'), 27: ('invert',), 28: ('conceal',),
       29: ('crossed_out',), 54: ('framed', 'encircled'), 55: ('overlined',)}
GROUP = {e: effects for effects in OFF.values() for e in effects}
EFFECTS = list(ON.values())


class BadSequence(Exception):
    pass


def apply(state, params):
    ps = [int(p) if p else 0 for p in params.split(';')]
    s = dict(state)
    i = 0
    while i < len(ps):
        p = ps[i]
        i += 1
        if p == 0:
            s = {}
        elif p in ON:
            s[ON[p]] = True
        elif p in OFF:
            for e in OFF[p]:
                s.pop(e, None)
        elif p == 10:
            s.pop('font', None)
        elif 11 <= p <= 19:
            s['font'] = p - 10
        elif 30 <= p <= 37 or 90 <= p <= 97:
            s['fg'] = ('ansi', p % 10 + (8 if p >= 90 else 0))
        elif 40 <= p <= 47 or 100 <= p <= 107:
            s['bg'] = ('ansi', p % 10 + (8 if p >= 100 else 0))
        elif p == 39:
            s.pop('fg', None)
        elif p == 49:
            s.pop('bg', None)
        elif p in (38, 48):
            key = 'fg' if p == 38 else 'bg'
            rest = ps[i:]
            if rest[:1] == [5] and len(rest) >= 2 and rest[1] <= 255:
                s[key] = ('palette', rest[1])
                i += 2
            elif rest[:1] == [2] and len(rest) >= 4 and max(rest[1:4]) <= 255:
                s[key] = ('rgb',) + tuple(rest[1:4])
                i += 4
            else:
                raise BadSequence(params)
        else:
            raise BadSequence(params)
    return s


def scan(text, state=None):
    """-> [(character, style dict)], final style, number of sequences"""
    state = dict(state or {})
    out, pos, n = [], 0, 0
    for m in ESC.finditer(text):
        for c in text[pos:m.start()]:
            out.append((c, state))
        state = apply(state, m.group(1))
        n += 1
        pos = m.end()
    for c in text[pos:]:
        if c == '\x1b':
            raise BadSequence(text[pos:pos + 20])
        out.append((c, state))
    return out, state, n


def strip(text):
    return ESC.sub('', text)


def colour(value):
    """the meaning of a colour setting"""
    if isinstance(value, int):
        return ('palette', value)
    if isinstance(value, (list, tuple)):
        return ('rgb',) + tuple(value)
    base = value[7:] if value.startswith('bright_') else value
    if base in NAMES:
        return ('ansi', NAMES.index(base) + (8 if value.startswith('bright_') else 0))
    h = value.lstrip('#')
    if len(h) == 3:
        h = ''.join(c + c for c in h)
    return ('rgb',) + tuple(int(h[k:k + 2], 16) for k in (0, 2, 4))


def enter(state, settings):
    """style inside an element with these settings"""
    s = dict(state)
    for e in EFFECTS:
        if settings.get(e):
            s[e] = True
    if settings.get('font') is not None:
        if settings['font']:
            s['font'] = settings['font']
        else:
            s.pop('font', None)
    for key, name in (('fg', 'foreground_colour'), ('bg', 'background_colour')):
        if settings.get(name) is not None:
            s[key] = colour(settings[name])
    return s


def leave(state, settings):
    """style after the end of an element with these settings, given the style at the end of its content"""
    if settings.get('normalise'):
        return {}
    s = dict(state)
    for e in EFFECTS:
        if settings.get(e):
            for g in GROUP[e]:
                s.pop(g, None)
    if settings.get('font') is not None:
        s.pop('font', None)
    if settings.get('foreground_colour') is not None:
        s.pop('fg', None)
    if settings.get('background_colour') is not None:
        s.pop('bg', None)
    return s


def sequences(settings):
    return sum(1 for e in EFFECTS if settings.get(e)) + sum(
        1 for n in ('font', 'foreground_colour', 'background_colour') if settings.get(n) is not None)
