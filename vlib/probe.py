"""Caller-supplied renderers that record what they see."""
from . import real

EVENTS = []
_cache = {}


def chain(tag):
    """the ancestors of an element or text, innermost first"""
    out = []
    p = tag.parent
    while p is not None and getattr(p, 'tag', None) is not None:
        out.append(p)
        p = getattr(p, 'parent', None)
    return out


def make(base='Renderer', name='Probe', settings=None, bases=None, record=None, passive=True):
    """A subclass of a real renderer that records (class name, tag, settings, content, output)."""
    parents = bases or (real.cls(base),)

    def render(self, content):
        out = content if passive else parents[0].render(self, content)
        EVENTS.append((name, self.tag, dict(self.settings), content, out))
        return out
    space = {'render': render}
    if settings is not None:
        space['settings'] = dict(settings)
    return type(name, parents, space)


def declared(cls):
    """the settings that a class and its bases declare, computed from the class bodies"""
    out = {}
    for k in reversed(cls.__mro__):
        if 'settings' in vars(k):
            out.update(vars(k)['settings'])
    return out


def run(html, before=None, **kwargs):
    """-> (result, events); before: a document that the same parser renders first"""
    del EVENTS[:]
    try:
        p = real.load()[0].GopherHTMLParser(**kwargs)
        with real.quiet():
            if before is not None:
                p.feed(before)
                p.close()
                p.reset()
                del EVENTS[:]
            p.feed(html)
            p.close()
    except Exception as e:
        raise real.RealError(e)
    return p.parsed, list(EVENTS)
