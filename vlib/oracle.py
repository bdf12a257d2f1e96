"""Comparisons shared by the checks."""
import re

from . import real, ref

DECORATION = re.compile(r'[\s]+')


def first_difference(expected, actual):
    e, a = expected.split('\n'), actual.split('\n')
    for n in range(max(len(e), len(a))):
        x = e[n] if n < len(e) else None
        y = a[n] if n < len(a) else None
        if x != y:
            return 'line %d: expected %r, got %r' % (n + 1, x, y)
    return None


def text(html, cfg, obs, pieces=None):
    out = real.render(html, cfg, pieces)
    if not isinstance(out, str):
        raise real.RealError(TypeError('the result is a %s' % type(out).__name__))
    obs.count('renderings')
    obs.count('output lines', out.count('\n') + 1)
    return out


def like_model(html, cfg, obs, exact=False, strip=False, squeeze=False):
    """-> (message or None, actual, model result)"""
    actual = text(html, cfg, obs)
    model = ref.render(html, cfg)
    obs.count('elements', len(model.rendered))
    e, a = model.text, actual
    if squeeze:
        e, a = ''.join(e.split()), ''.join(a.split())
        if e != a:
            n = next((i for i in range(min(len(e), len(a))) if e[i] != a[i]), min(len(e), len(a)))
            return ('visible characters differ from number %d on: expected %r, got %r' %
                    (n + 1, e[max(0, n - 20):n + 40], a[max(0, n - 20):n + 40])), actual, model
        return None, actual, model
    if not exact:
        e, a = ref.rstrip_lines(e), ref.rstrip_lines(a)
    if strip:
        e, a = e.strip('\n'), a.strip('\n')
    return first_difference(e, a), actual, model


def kinds(model, obs):
    for _, kind in model.rendered:
        obs.count('rendered by ' + kind)
