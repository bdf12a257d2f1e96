"""tools/shrink.py REPLAY: a smaller case that still breaks the property (for diagnosis only)"""
import copy, importlib, json, os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.dont_write_bytecode = True
from vlib import harness, real
r = json.load(open(sys.argv[1]))
mod = importlib.import_module('checks.' + r['property'].lower())
real.load()
if hasattr(mod, 'setup'):
    mod.setup()
case = r['case']


def bad(c):
    try:
        return harness.evaluate(mod, c, harness.Observer())
    except Exception:
        return None


def ddmin(parts, make):
    n = 2
    while len(parts) >= 2:
        size = max(1, len(parts) // n)
        for i in range(0, len(parts), size):
            rest = parts[:i] + parts[i + size:]
            if bad(make(rest)):
                parts, n = rest, max(n - 1, 2)
                break
        else:
            if size == 1:
                break
            n = min(len(parts), n * 2)
    return parts


def variants(c):
    """smaller JSON values"""
    if isinstance(c, dict):
        for k in c:
            yield {x: y for x, y in c.items() if x != k}
        for k in c:
            for v in variants(c[k]):
                yield dict(c, **{k: v})
    elif isinstance(c, list):
        for i in range(len(c)):
            yield c[:i] + c[i + 1:]
        for i in range(len(c)):
            for v in variants(c[i]):
                yield c[:i] + [v] + c[i + 1:]


assert bad(case), 'does not fail'
if 'html' in case:
    for _ in range(2):
        # balanced: drop an element with its end tag, or its content
        changed = True
        while changed:
            changed = False
            h = case['html']
            for m in re.finditer(r'<([\w-]+)[^>]*>', h):
                tag = m.group(1)
                d, e = 0, None
                for t in re.finditer(r'<(/?)%s\b[^>]*>' % tag, h[m.start():]):
                    d += -1 if t.group(1) else 1
                    if d == 0:
                        e = t
                        break
                if e is None:
                    continue
                a, b = m.start(), m.start() + e.end()
                for new in (h[:a] + h[b:], h[:a] + h[m.end():m.start() + e.start()] + h[b:]):
                    if bad(dict(case, html=new)):
                        case, changed = dict(case, html=new), True
                        break
                if changed:
                    break
        def join(parts):
            return dict(case, html=''.join(parts))
        case = join(ddmin(re.findall(r'<[^>]*>|[^<\s]+|\s+', case['html']), join))
changed = True
while changed:
    changed = False
    for v in variants({k: x for k, x in case.items() if k != 'html'}):
        c = dict(case)
        for k in list(c):
            if k != 'html' and k not in v:
                del c[k]
        c.update(v)
        try:
            if bad(c):
                case, changed = c, True
                break
        except BaseException:
            pass
print(json.dumps(case))
print(bad(case))
