"""Executable reference model of gopher-render: what a document should look like.

Independent of /repo: the tokens come from the standard library's HTMLParser,
everything after that (tree, selectors, cascade, boxes, wrapping, links, pages)
is modelled here from the documented behaviour.  Escape-free: ANSI styling is
judged by vlib.sgr and by comparing stripped output.

render(html, cfg) -> Result with .text and the recorded layout facts.
"""
import os
import re
import string
import textwrap
from html.parser import HTMLParser
from urllib.parse import urlsplit

from . import css


def lines_of(text, keepends=False):
    """the lines of a text: they end at line feeds and carriage returns, not at other characters that Python's splitlines takes for boundaries"""
    out, start = [], 0
    for m in re.finditer('\r\n|\r|\n', text):
        out.append(text[start:m.end() if keepends else m.start()])
        start = m.end()
    return out + ([text[start:]] if start < len(text) else [])


VOID = frozenset('area base br col embed hr img input link meta param source track wbr'.split())

# Settings of each renderer kind on top of those of its base kind.
_OWN = {
    'Renderer': (None, {}),
    'Non': ('Renderer', {}),
    'Inline': ('Renderer', dict(template='{}', capitalized=False)),
    'Block': ('Renderer', dict(border=['', '', '', ''], margin=[0, 0, 0, 0], padding=[0, 0, 0, 0])),
    'Header': ('Block', dict(template='{}', capitalized=False, spread=0, spread_char=' ', centered=False,
                             underlined=False, underline_char='=', underline_full=False, margin=[1, 0, 1, 0])),
    'MarkdownHeader': ('Header', {}),
    'Paragraph': ('Block', dict(initial_indent=0, subsequent_indent=0, justification='left', capitalized=False,
                                fix_sentence_endings=True, break_long_words=True, skip_for_code_or_pre=True,
                                margin=[1, 0, 1, 0], line_template='{}')),
    'Code': ('Inline', dict(block_template='```\n{}\n```\n', inline_template='`{}`')),
    'Pre': ('Block', dict(line_template='{}', indent=4, margin=[1, 0, 1, 0])),
    'Link': ('Inline', dict(templates={'reference': '[{content}][{link_reference}]',
                                       'inline': ['[{content}]({href})', '[{content}]({href} "{title}")']},
                            capitalized=False)),
    'ExtractedLink': ('Block', dict(templates=['\n[{link_reference}] {description}: {href}',
                                               '\n[{link_reference}] {description}: {href} "{title}"'],
                                    gophermap_template='{type}[{link_reference}] {description}\t{selector}\t{host}\t{port}\n',
                                    max_link_description=10)),
    'Image': ('Inline', dict(templates={'reference': '[{title}][{link_reference}]', 'inline': '![{title}]({href})'},
                             capitalized=False)),
    'ExtractedImageLink': ('Block', dict(templates=['\n[{link_reference}] {description}: {href}',
                                                    '\n[{link_reference}] {description}: {href} "{title}"'],
                                         gophermap_template='{type}[{link_reference}] {description}\t{selector}\t{host}\t{port}\n',
                                         max_link_description=10)),
    'Em': ('Inline', dict(template='_{}_')),
    'Strong': ('Inline', dict(template='**{}**')),
    'Underline': ('Inline', dict(template='_{}_')),
    'Strikethrough': ('Inline', dict(template='~~{}~~')),
    'Break': ('Inline', dict(template='{}')),
    'BlockQuote': ('Block', dict(line_template='> {}', margin=[1, 0, 1, 0])),
    'List': ('Block', dict(margin=[1, 0, 1, 0], padding=[0, 0, 0, 0])),
    'ListItem': ('Block', dict(line_template='* {}', margin=[1, 0, 0, 0], initial_indent=0, subsequent_indent=0,
                               justification='left', capitalized=False, fix_sentence_endings=True,
                               break_long_words=True)),
    'OrderedListItem': ('ListItem', dict(line_template='{0}. {1}', start_index=1, step=1)),
    'DefinitionList': ('Block', dict(margin=[1, 0, 1, 0], padding=[0, 0, 0, 0])),
    'DefinitionListTermHeader': ('Header', dict(margin=[2, 0, 0, 0], padding=[0, 0, 0, 0])),
    'DefinitionListItem': ('Block', dict(line_template=': {}', margin=[1, 0, 0, 0], initial_indent=0,
                                         subsequent_indent=0, justification='left', capitalized=False,
                                         fix_sentence_endings=True, break_long_words=True)),
}


def bases(kind):
    out = []
    while kind:
        out.append(kind)
        kind = _OWN[kind][0]
    return out


def defaults(kind):
    s = {}
    for k in reversed(bases(kind)):
        s.update(_OWN[k][1])
    return s


def is_block_kind(kind):
    return 'Block' in bases(kind)


# line templates take width only for these
_TEMPLATED = ('Paragraph', 'BlockQuote', 'ListItem', 'OrderedListItem', 'DefinitionListItem')

# The built-in rules, in order: selector -> (kind or None, settings or None)
RULES = [('h%d' % n, ('MarkdownHeader', None)) for n in range(1, 7)] + [
    ('p', ('Paragraph', None)),
    ('br', ('Break', None)),
    ('blockquote', ('BlockQuote', None)),
    ('blockquote > p:first-child', (None, dict(margin=[0, 0, 1, 0]))),
    ('blockquote > p:last-child', (None, dict(margin=[1, 0, 0, 0]))),
    ('blockquote > p:last-child:first-child', (None, dict(margin=[0, 0, 0, 0]))),
    ('pre', ('Pre', None)),
    ('div', ('Block', None)),
    ('ul', ('List', None)),
    ('ol', ('List', None)),
    ('li', ('ListItem', None)),
    ('ol > li', ('OrderedListItem', None)),
    ('li:first-child', (None, dict(margin=[0, 0, 0, 0]))),
    ('li > ol, li > ul', (None, dict(margin=[1, 0, 0, 0]))),
    ('dl', ('DefinitionList', None)),
    ('dt', ('DefinitionListTermHeader', None)),
    ('dd', ('DefinitionListItem', None)),
    ('dt:first-child', (None, dict(margin=[0, 0, 0, 0]))),
    ('code', ('Code', None)),
    ('a', ('Link', None)),
    ('img', ('Image', None)),
    ('em', ('Em', None)),
    ('strong', ('Strong', None)),
    ('i', ('Em', None)),
    ('b', ('Strong', None)),
    ('u', ('Underline', None)),
    ('ins', ('Underline', None)),
    ('s', ('Strikethrough', None)),
    ('del', ('Strikethrough', None)),
    ('span', ('Inline', None)),
]
EXTRACTED_RULES = [('a', ('ExtractedLink', None)), ('img', ('ExtractedImageLink', None))]


# --------------------------------------------------------------------- tree

class Node:
    def __init__(self, tag, attrs, parent):
        self.tag, self.parent = tag, parent
        self.attrs = dict(attrs)
        self.children = []
        self.pending = []       # links whose entries end this element
        self.text = None
        self.content = ''
        self.pre = False
        self.number = None

    def elements(self):
        return [c for c in self.children if c.tag is not None]

    def walk(self):
        for c in self.children:
            if c.tag is not None:
                yield c
                yield from c.walk()


class Text:
    tag = None

    def __init__(self, text, parent, pre):
        self.text, self.parent, self.pre = text, parent, pre


class _Events(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.events = []

    def handle_starttag(self, tag, attrs):
        self.events.append(('start', tag, attrs))

    def handle_endtag(self, tag):
        self.events.append(('end', tag))

    def handle_data(self, data):
        self.events.append(('data', data))


def events(html):
    p = _Events()
    p.feed(html)
    p.close()
    return p.events


def tree(html, ignored=None):
    root = Node(None, (), None)
    stack = []
    buf = []

    def flush():
        if buf:
            parent = stack[-1] if stack else root
            pre = any(n.tag == 'pre' for n in stack)
            text = ''.join(buf)
            del buf[:]
            if not pre:
                text = re.sub('[ \t\n\r\f]+', ' ', text)
            parent.children.append(Text(text, parent, pre))

    for ev in events(html):
        if ev[0] == 'data':
            buf.append(ev[1])
        elif ev[0] == 'start':
            flush()
            parent = stack[-1] if stack else root
            n = Node(ev[1], ev[2], parent)
            parent.children.append(n)
            if ev[1] not in VOID:
                stack.append(n)
        else:
            if ev[1] in VOID:
                continue
            if stack and stack[-1].tag == ev[1]:
                flush()
                stack.pop()
            elif ignored is not None:
                ignored.append(ev[1])
    flush()
    return root


# ------------------------------------------------------------------- layout

def wrap(text, width, kw):
    return textwrap.wrap(text, width, **kw)


def justify(text, width, how, kw):
    if how == 'none' or width < 1:
        return [text]
    lines = wrap(text, width, kw)
    if how == 'left':
        return lines
    if how == 'right':
        return [l.rjust(width) for l in lines]
    if how == 'center':
        return [l.center(width) for l in lines]
    out = []
    for l in lines[:-1]:
        indent = l[:len(l) - len(l.lstrip())]
        body = l.strip()
        gaps = body.count(' ')
        missing = width - len(l)
        if missing <= 0 or gaps == 0:
            out.append(l)
            continue
        each, extra = divmod(missing, gaps)
        s, seen = '', 0
        for ch in body:
            if ch == ' ':
                s += ' ' * (1 + each + (1 if seen < extra else 0))
                seen += 1
            else:
                s += ch
        out.append(indent + s)
    return out + lines[-1:]


_WRAP_ARGS = ('fix_sentence_endings', 'break_long_words', 'break_on_hyphens', 'drop_whitespace',
              'replace_whitespace', 'expand_tabs', 'tabsize')


def gopher_target(href, cfg):
    """-> (type, selector, host, port) of a link target."""
    href = re.sub('[\t\r\n]', '', href or '')
    here = (cfg.get('gopher_host', ''), cfg.get('gopher_port', 70))
    web = ('h', 'URL:' + href) + here
    try:
        u = urlsplit(href)
        port = u.port
    except ValueError:
        return web
    if u.scheme not in ('', 'gopher'):
        return web
    stem, dot, ext = u.path.split('/')[-1].rpartition('.')
    if not stem:
        kind = 1
    elif ext in ('html', 'htm'):
        kind = 'h'
    elif ext == 'gif':
        kind = 'g'
    elif ext in ('jpg', 'jpeg', 'png', 'bmp', 'tiff'):
        kind = 'I'
    elif ext in ('txt', 'csv', 'tsv', 'md'):
        kind = 0
    else:
        kind = 9
    if u.scheme == 'gopher':
        return (kind, u.path, u.hostname or here[0], 70 if port is None else port)
    return (kind, u.path) + here


def shorten(text, n):
    return text if len(text) <= n else text[:n] + '...'


def capitals(s, node, content):
    """the content in capitals if so configured, but not the entries after it"""
    n = len(node.content)
    return content[:n].upper() + content[n:] if s['capitalized'] else content


class Result:
    def __init__(self):
        self.text = ''
        self.entries = []       # (number, node) in the order they were rendered
        self.links = []         # numbered nodes in document order
        self.rendered = []      # (node, kind) in order of completion
        self.boxes = []         # (node, kind, outer width)
        self.clamped = False    # some box had no room left
        self.root = None


class Model:
    def __init__(self, cfg):
        self.cfg = cfg
        self.rules = self._rules(RULES, cfg.get('renderers') or {})
        self.erules = self._rules(EXTRACTED_RULES, cfg.get('extracted_link_renderers') or {})
        self.default = (cfg.get('renderers') or {}).get('', ('Renderer', None))
        self.default = self._spec(self.default)
        self.out = Result()
        self.placement = cfg.get('link_placement', 'footer')
        self.items = {}
        self.img_placement = cfg.get('image_placement', 'inline')
        self.format = cfg.get('output_format', 'text')

    @staticmethod
    def _spec(spec):
        return (spec, None) if isinstance(spec, str) else (spec[0], spec[1])

    def _rules(self, builtin, custom):
        d = dict(builtin)
        for k, v in custom.items():
            if k != '':
                d[k] = self._spec(v)
        return [(css.parse(sel), v) for sel, v in d.items()]

    def cascade(self, node, rules):
        hits = []
        for i, (sel, (kind, settings)) in enumerate(rules):
            ok, sp = css.match(node, sel)
            if ok:
                hits.append((sp, i, kind, settings))
        hits.sort(key=lambda h: h[:2])
        kind, settings = None, {}
        for _, _, k, s in hits:
            kind = k if k is not None else kind
            settings.update(s or {})
        return kind, settings

    def style(self, node):
        kind, local = self.cascade(node, self.rules)
        if kind is None:
            kind, local = self.default[0], dict(self.default[1] or {}, **local)
        s = defaults(kind)
        s.update(local)
        return kind, s

    def entry_style(self, node):
        kind, local = self.cascade(node, self.erules)
        if kind is None:
            kind, local = self.erules[0][1]
        s = defaults(kind)
        s.update(local or {})
        return kind, s

    def where(self, node):
        return self.img_placement if node.tag == 'img' else self.placement

    def suppressed(self, node):
        """a link inside an element that is not rendered has no reference, and so no entry"""
        node = node.parent
        while node.tag is not None:
            if self.style(node)[0] == 'Non':
                return True
            node = node.parent
        return False

    # -- document

    def document(self, html):
        out = self.out
        root = out.root = tree(html)
        box = self.cfg.get('box') or {}
        m = box.get('margin') or [0, 0, 0, 0]
        avail = box.get('width', self.cfg.get('width', 67))
        for side in ('margin', 'padding', 'border'):
            v = box.get(side) or [0, 0, 0, 0]
            avail -= v[1] + v[3]
        footer = []
        n = 0
        for node in root.walk():
            if node.tag in ('a', 'img'):
                place = self.where(node)
                node.number = n + 1
                if self.suppressed(node):
                    continue
                if place != 'inline':
                    n += 1
                    out.links.append(node)
                if place == 'footer':
                    footer.append(node)
                elif place == 'after_block':
                    block = node.parent
                    while block is not root and not is_block_kind(self.style(block)[0]):
                        block = block.parent
                    block.pending.append(node)
        body = self.children(root, avail, True)
        links = ''
        for group in (root.pending, footer):
            if group:
                links += '\n' + ''.join(self.entry(l, avail) for l in group)
        if self.format == 'gophermap':
            text = self.menu(self._indent(body.expandtabs(), m[3])) + links
        else:
            text = self._indent(body + links, m[3])
        text = '\n' * m[0] + text + '\n' * m[2]
        if self.cfg.get('optimise', True):
            text = '\n'.join(l.rstrip() for l in text.split('\n'))
        out.text = text
        return out

    @staticmethod
    def _indent(text, n):
        return ''.join(' ' * n + l for l in lines_of(text, True))

    # -- elements

    def breaks(self, c):
        return c.tag is not None and (c.tag == 'br' or is_block_kind(self.style(c)[0]))

    def children(self, node, avail, in_block):
        s, after_block = '', False
        kids = node.children
        own = node.laid_out = set()   # numbers of the lines that blocks have laid out
        for i, c in enumerate(kids):
            if c.tag is None:
                r = c.text
                if not c.pre:
                    if self.breaks(kids[i - 1]) if i else in_block:
                        r = r.lstrip(' ')
                    if self.breaks(kids[i + 1]) if i + 1 < len(kids) else in_block:
                        r = r.rstrip(' ')
                block = False
            else:
                r = self.element(c, avail)
                block = is_block_kind(self.style(c)[0])
            if not r:
                continue
            if (block or after_block) and s and s[-1] != '\n' and r[0] != '\n':
                s += '\n'
            if block:
                at = s.count('\n')
                rows = r.split('\n')
                own.update(at + i for i, row in enumerate(rows) if row)
            elif c.tag is not None and r.count('\n') == c.content.count('\n'):
                # those inside an inline element, but where its line may have other text
                own.update(s.count('\n') + i for i in c.laid_out if 0 < i < r.count('\n'))
            s += r
            after_block = block
        return s

    def content(self, node, kind, avail):
        s = node.content = self.children(node, avail, is_block_kind(kind))
        if node.pending:
            s += '\n'
            for l in node.pending:
                e = self.entry(l, avail)
                if self.format == 'gophermap' and e:
                    # whatever the blocks do with their lines, a menu item stays a line of its own
                    mark = chr(0xF0000 + len(self.items))
                    self.items[mark] = e
                    e = mark + '\n'
                s += e
        return s

    def menu(self, text):
        out = []
        for line in text.split('\n'):
            e = ''.join(self.items.get(c, '') for c in line)
            out.append(re.sub(r'\n\Z', '', e) if e else line)
        return '\n'.join(out)

    def element(self, node, avail):
        kind, s = self.style(node)
        if kind in ('OrderedListItem',):
            items = [c for c in node.parent.children if c.tag == node.tag]
            pos = next(i for i, c in enumerate(items) if c is node)
            t = s['line_template']
            places = [f for _, f, _, _ in string.Formatter().parse(t) if f is not None]
            if len(places) > 1 or places == ['1']:
                t = t.format(pos * s['step'] + s['start_index'], '\0')
                s['line_template'] = re.sub('[{}]', lambda m: m.group() * 2, t).replace('\0', '{}')
        if kind == 'MarkdownHeader':
            h = '#' * int(node.tag[1])
            s['template'] = h + ' {} ' + h
        if is_block_kind(kind):
            r = self.block(node, kind, s, avail)
        else:
            c = self.content(node, kind, avail)
            r = self.inline(node, kind, s, c)
        self.out.rendered.append((node, kind))
        return r

    def inline(self, node, kind, s, content):
        if kind == 'Renderer':
            return content
        if kind == 'Non':
            return ''

        def base(t):
            t = t.upper() if s['capitalized'] else t
            return s['template'].format(t)
        if kind in ('Inline', 'Em', 'Strong', 'Underline', 'Strikethrough'):
            return base(content)
        if kind == 'Break':
            return base('\n')
        if kind == 'Code':
            if getattr(node.parent, 'tag', None) == 'pre':
                return content
            return s['block_template' if '\n' in content else 'inline_template'].format(content)
        up = (lambda t: t.upper()) if s['capitalized'] else (lambda t: t)
        if kind == 'Link':
            if self.placement == 'inline':
                title = node.attrs.get('title')
                t = s['templates']['inline'][1 if title else 0]
                return t.format(content=up(base(content)), href=self.href(node), title=title)
            return s['templates']['reference'].format(content=up(base(content)), link_reference=node.number)
        if kind == 'Image':
            title = node.attrs.get('alt') or 'Image'
            if self.img_placement == 'inline':
                return s['templates']['inline'].format(href=self.href(node), title=title)
            return s['templates']['reference'].format(title=title, link_reference=node.number)
        raise NotImplementedError(kind)

    @staticmethod
    def href(node):
        return re.sub('[\t\r\n]', '', node.attrs.get('src' if node.tag == 'img' else 'href') or '')

    # -- blocks

    def geometry(self, kind, s, avail):
        m, p = s['margin'] or [0] * 4, s['padding'] or [0] * 4
        b = [len(x) for x in s['border']]
        lt = 0
        if kind in _TEMPLATED and s['line_template']:
            lt = len(s['line_template'].format(''))
        outer = avail - m[1] - m[3]
        padded = outer - b[1] - b[3]
        inner = padded - p[1] - p[3] - lt
        if inner < 1:
            self.out.clamped = True
        return m, p, lt, outer, padded, inner

    def boxed(self, lines, s, m, p, outer, padded):
        """lines -> the lines of the whole box without vertical margins"""
        b = s['border']
        rows = [''] * p[0] + _shift(lines, p[3]) + [''] * p[2]
        rows = [b[3] + r + ' ' * (padded - len(r)) + b[1] for r in rows]
        rows = [c * outer for c in b[0]] + rows + [c * outer for c in b[2]]
        return rows

    def finish(self, text, m):
        return '\n' * m[0] + self._indent(text, m[3]) + '\n' * m[2]

    def block(self, node, kind, s, avail):
        m, p, lt, outer, padded, inner = self.geometry(kind, s, avail)
        content = self.content(node, kind, inner)
        lines = self.inner(node, kind, s, content, inner, lt)
        rows = self.boxed(lines, s, m, p, outer, padded)
        self.out.boxes.append((node, kind, outer, inner))
        return self.finish('\n'.join(rows), m)

    def inner(self, node, kind, s, content, width, lt):
        if kind in ('Block', 'List', 'DefinitionList'):
            return content.split('\n')
        if kind in ('Header', 'MarkdownHeader', 'DefinitionListTermHeader'):
            # the entries after the heading are no part of it
            content, after = content[:len(node.content)], content[len(node.content):]
            t = content.upper() if s['capitalized'] else content
            if s['spread'] > 0:
                t = '\n'.join((s['spread_char'] * s['spread']).join(l) for l in t.split('\n'))
            rows = s['template'].format(t).split('\n')
            if s['underlined']:
                rows.append(s['underline_char'] * (width if s['underline_full'] else max(map(len, rows))))
            if s['centered']:
                rows = [r.center(width) for r in rows]
            return rows + after.split('\n')[1:]
        if kind == 'Pre':
            return [' ' * s['indent'] + s['line_template'].format(l) for l in lines_of(content)] or ['']
        if kind == 'BlockQuote':
            return [s['line_template'].format(l) for l in lines_of(content)] or ['']
        kw = dict(initial_indent=' ' * s['initial_indent'], subsequent_indent=' ' * s['subsequent_indent'])
        kw.update((k, s[k]) for k in _WRAP_ARGS if k in s)
        if kind == 'Paragraph':
            kids = [k for k in node.children if k.tag is not None or k.text.strip(' ')]
            if s['skip_for_code_or_pre'] and len(kids) == 1 and kids[0].tag in ('code', 'pre'):
                return content.split('\n')
            t = capitals(s, node, content)
            rows = []
            for i, chunk in enumerate(t.split('\n')):
                if i in node.laid_out:
                    rows.append(chunk)
                    continue
                rows += '\n'.join(justify(chunk.strip(), width, s['justification'], kw)).split('\n')
            return [s['line_template'].format(r) for r in rows]
        if kind in ('ListItem', 'OrderedListItem', 'DefinitionListItem'):
            t = capitals(s, node, content)
            rows = []
            skipped = len(t) - len(t.lstrip('\n'))
            for i, chunk in enumerate(t.strip('\n').split('\n'), skipped):
                if i in node.laid_out:
                    rows.append(chunk)
                    continue
                rows += '\n'.join(justify(chunk, width, s['justification'], kw)).split('\n')
            return [s['line_template'].format(rows[0])] + [' ' * lt + r for r in rows[1:]]
        raise NotImplementedError(kind)

    # -- entries

    def entry(self, node, avail):
        kind, s = self.entry_style(node)
        m, p, lt, outer, padded, inner = self.geometry(kind, s, avail)
        self.out.entries.append((node.number, node))
        # the content as rendered in its place, without the menu items of blocks in it
        content = ''.join(c for c in node.content if c not in self.items)
        title = node.attrs.get('title')
        if node.tag == 'img' or kind == 'ExtractedImageLink':
            label = (node.attrs.get('alt') or 'Image').strip()
            desc = shorten(label, s['max_link_description'])
            shown_title = (node.attrs.get('alt') or 'Image') if desc != label else None
        else:
            desc = shorten(content.strip(), s['max_link_description'])
            shown_title = title
        if self.format == 'gophermap':
            if kind == 'ExtractedLink' and title is not None:
                desc = title
            kind_, sel, host, port = gopher_target(self.href(node), self.cfg)
            line = s['gophermap_template'].format(
                type=kind_, link_reference=node.number, description=' '.join(desc.split()),
                selector=sel, host=host, port=port)
            return '\n' * m[0] + line + '\n' * m[2]
        t = s['templates'][1 if shown_title else 0]
        t = t.format(link_reference=node.number, description=desc, href=self.href(node), title=shown_title)
        rows = self.boxed(t.split('\n'), s, m, p, outer, padded)
        return self.finish('\n'.join(rows), m)


def _shift(lines, left):
    return [' ' * left + l for l in lines]


def render(html, cfg=None):
    return Model(cfg or {}).document(html)


def rstrip_lines(text):
    return '\n'.join(l.rstrip() for l in text.split('\n'))
