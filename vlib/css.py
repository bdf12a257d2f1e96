"""Reference CSS selector engine, written from the CSS definition.

Independent of cssselect and of gopher_render: own parser, matcher and
specificity.  Names of elements, attributes and pseudo-classes have no case.  Works on any node with .tag, .attrs (raw strings), .parent and
.elements() (element children, in order).
"""
import re

_TOKEN = re.compile(r'''
    (?P<ws>\s+)
  | (?P<hash>\#[\w-]+)
  | (?P<cls>\.[\w-]+)
  | (?P<attr>\[[^\]]*\])
  | (?P<pe>::[\w-]+(?:\([^)]*\))?)
  | (?P<ps>:[\w-]+)
  | (?P<lp>\()
  | (?P<rp>\))
  | (?P<comb>[>+~])
  | (?P<comma>,)
  | (?P<type>\*|[\w-]+)
''', re.X)

_ATTR = re.compile(r'''^\[\s*([\w-]+)\s*(?:(~=|\|=|\^=|\$=|\*=|=)\s*(?:"([^"]*)"|'([^']*)'|([\w-]+))\s*)?\]$''')

OLD_PSEUDO_ELEMENTS = ('before', 'after', 'first-line', 'first-letter')


def parse(text):
    """-> list of complex selectors [compound, comb, compound, ...]

    A compound is a list of simple selectors (tuples)."""
    selectors, cur, compound, pending_ws = [], [], [], False
    pos = 0

    def flush():
        nonlocal compound
        if compound:
            cur.append(compound)
            compound = []

    while pos < len(text):
        m = _TOKEN.match(text, pos)
        if not m:
            raise ValueError("selector %r at %d" % (text, pos))
        kind, val = m.lastgroup, m.group()
        pos = m.end()
        if kind == 'ws':
            if compound:
                flush()
                pending_ws = True
            continue
        if kind == 'comma':
            flush()
            selectors.append(cur)
            cur, pending_ws = [], False
            continue
        if kind == 'comb':
            flush()
            cur.append(val)
            pending_ws = False
            continue
        if pending_ws:
            cur.append(' ')
            pending_ws = False
        if kind == 'type':
            compound.append(('type', val.lower()))
        elif kind == 'hash':
            compound.append(('id', val[1:]))
        elif kind == 'cls':
            compound.append(('class', val[1:]))
        elif kind == 'attr':
            a = _ATTR.match(val)
            if not a:
                raise ValueError("attribute selector %r" % val)
            v = next((x for x in a.groups()[2:] if x is not None), None)
            compound.append(('attr', a.group(1).lower(), a.group(2), v))
        elif kind == 'pe':
            compound.append(('pseudo-element', val[2:].lower()))
        elif kind == 'ps':
            name = val[1:].lower()
            if pos < len(text) and text[pos] == '(':
                depth, end = 1, pos + 1
                while depth:
                    depth += {'(': 1, ')': -1}.get(text[end], 0)
                    end += 1
                arg = text[pos + 1:end - 1].strip()
                pos = end
                if name == 'not':
                    sub = parse(arg)
                    assert len(sub) == 1 and len(sub[0]) == 1
                    compound.append(('not', sub[0][0]))
                else:
                    compound.append(('function', name, arg))
            elif name in OLD_PSEUDO_ELEMENTS:
                compound.append(('pseudo-element', name))
            else:
                compound.append(('pseudo', name))
        else:
            raise ValueError("selector %r: unexpected %r" % (text, val))
    flush()
    selectors.append(cur)
    return selectors


def series(arg):
    """an+b -> (a, b) or None if it is not one."""
    s = re.sub(r'\s+', '', arg.lower())
    if s == 'odd':
        return 2, 1
    if s == 'even':
        return 2, 0
    m = re.match(r'^([+-]?\d*)n([+-]\d+)?$', s)
    if m:
        a = m.group(1)
        a = {'': 1, '+': 1, '-': -1}.get(a, None) if a in ('', '+', '-') else int(a)
        return a, int(m.group(2) or 0)
    m = re.match(r'^[+-]?\d+$', s)
    if m:
        return 0, int(s)
    return None


def _in_series(position, ab):
    if ab is None:
        return False
    a, b = ab
    if a == 0:
        return position == b
    # exists n >= 0: a*n + b == position
    n = 0
    limit = abs(position) + abs(b) + 2
    while n <= limit:
        if a * n + b == position:
            return True
        n += 1
    return False


def _classes(node):
    v = node.attrs.get('class') if 'class' in node.attrs else None
    return re.findall('[^ \t\n\r\f]+', v or '')


def _simple(node, s):
    k = s[0]
    if k == 'type':
        return s[1] == '*' or s[1] == node.tag
    if k == 'id':
        return 'id' in node.attrs and node.attrs['id'] == s[1]
    if k == 'class':
        return s[1] in _classes(node)
    if k == 'attr':
        _, name, op, want = s
        if name not in node.attrs:
            return False
        if op is None:
            return True
        have = node.attrs[name]
        have = '' if have is None else have
        if op == '=':
            return have == want
        if op == '~=':
            return bool(want) and not re.search(r'\s', want) and want in re.findall('[^ \t\n\r\f]+', have)
        if op == '|=':
            return have == want or have.startswith(want + '-')
        if want == '':
            return False
        if op == '^=':
            return have[:len(want)] == want
        if op == '$=':
            return have[-len(want):] == want
        if op == '*=':
            return have.find(want) >= 0
        raise ValueError(op)
    if k == 'not':
        return not _compound(node, s[1])
    if k == 'pseudo':
        sibs = node.parent.elements()
        if s[1] == 'first-child':
            return sibs[0] is node
        if s[1] == 'last-child':
            return sibs[-1] is node
        return False            # unsupported: matches nothing
    if k == 'function':
        sibs = node.parent.elements()
        i = next(n for n, x in enumerate(sibs) if x is node)
        if s[1] == 'nth-child':
            return _in_series(i + 1, series(s[2]))
        if s[1] == 'nth-last-child':
            return _in_series(len(sibs) - i, series(s[2]))
        return False
    if k == 'pseudo-element':
        return False
    raise ValueError(k)


def _compound(node, comp):
    return all(_simple(node, s) for s in comp)


def _is_element(node):
    return getattr(node, 'tag', None) is not None


def match_complex(node, sel):
    if not _compound(node, sel[-1]):
        return False
    if len(sel) == 1:
        return True
    comb, rest = sel[-2], sel[:-2]
    if comb == '>':
        return _is_element(node.parent) and match_complex(node.parent, rest)
    if comb == ' ':
        a = node.parent
        while _is_element(a):
            if match_complex(a, rest):
                return True
            a = a.parent
        return False
    sibs = node.parent.elements()
    i = next(n for n, x in enumerate(sibs) if x is node)
    if comb == '+':
        return i > 0 and match_complex(sibs[i - 1], rest)
    if comb == '~':
        return any(match_complex(s, rest) for s in sibs[:i])
    raise ValueError(comb)


def _spec_simple(s):
    k = s[0]
    if k == 'type':
        return (0, 0, 0 if s[1] == '*' else 1)
    if k == 'id':
        return (1, 0, 0)
    if k in ('class', 'attr', 'pseudo', 'function'):
        return (0, 1, 0)
    if k == 'not':
        return _add([_spec_simple(x) for x in s[1]])
    return (0, 0, 1)


def _add(ts):
    return tuple(sum(x) for x in zip(*ts)) if ts else (0, 0, 0)


def specificity(sel):
    return _add([_spec_simple(s) for comp in sel[::2] for s in comp])


def match(node, selectors):
    """-> (matches, specificity of the most specific matching selector)"""
    best = None
    for sel in selectors:
        if match_complex(node, sel):
            sp = specificity(sel)
            if best is None or sp > best:
                best = sp
    return best is not None, best
