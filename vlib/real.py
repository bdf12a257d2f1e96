"""Access to the code under test: always /repo's working tree, never stale bytecode."""
import os
import sys
import io
import contextlib

REPO = os.environ.get('VERIF_REPO', '/repo')


class RealError(Exception):
    """The code under test raised: carries the original exception."""

    def __init__(self, exc):
        super().__init__('%s: %s' % (type(exc).__name__, exc))
        self.exc = exc


def load():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import gopher_render
    assert os.path.realpath(gopher_render.__file__).startswith(os.path.realpath(REPO) + os.sep), gopher_render.__file__
    from gopher_render import rendering
    return gopher_render, rendering


def cls(kind):
    r = load()[1]
    return r.Renderer if kind == 'Renderer' else getattr(r, kind + 'Renderer')


def spec(s):
    if isinstance(s, str):
        return cls(s)
    kind, settings = s
    return (None if kind is None else cls(kind), None if settings is None else dict(settings))


def kwargs(cfg):
    """JSON configuration -> keyword arguments of the parser"""
    r = load()[1]
    k = {}
    for name, v in cfg.items():
        if name == 'box':
            k['box'] = r.Box(**v)
        elif name in ('renderers', 'extracted_link_renderers'):
            k[name] = {sel: spec(s) for sel, s in v.items()}
        else:
            k[name] = v
    return k


def parser(cfg):
    try:
        return load()[0].GopherHTMLParser(**kwargs(cfg))
    except Exception as e:
        raise RealError(e)


def quiet():
    return contextlib.redirect_stderr(io.StringIO())


def render(html, cfg=None, pieces=None):
    """The real rendering, in one piece or several.  Raises RealError."""
    p = parser(cfg or {})
    try:
        with quiet():
            for piece in (pieces if pieces is not None else [html]):
                p.feed(piece)
            p.close()
    except RealError:
        raise
    except Exception as e:
        raise RealError(e)
    return p.parsed
