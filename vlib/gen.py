"""Generators of documents and configurations (all JSON-able, seeded)."""
import html as _html

LETTERS = 'abcdefghijklmnopqrstuvwxyz'
UNI = 'éßñøλжק中あ'
INLINES = ['em', 'strong', 'i', 'b', 'u', 'ins', 's', 'del', 'span', 'code']
SPECIAL = ['{', '}', '{}', '{0}', '{content}', '{title}', '%s', '%', '\\', '\\n', '\\1', '&amp;', '&lt;b&gt;',
           '&quot;', "'", '&#123;', '$x', '${x}', '[1]', '](', '&lt;/p&gt;', '#', '*', '_', '`', '~~', '|', '=', '@', '&copy;', 'a\u2028b', 'x\x85y', '\x1dz']


def word(rng, lo=1, hi=9, unicode=0.03):
    n = rng.randint(lo, hi)
    alphabet = LETTERS if rng.random() > unicode else LETTERS + UNI
    return ''.join(rng.choice(alphabet) for _ in range(n))


class Doc:
    """A document as a tree of ('tag', attrs, children) and strings."""

    def __init__(self, rng, **k):
        self.rng = rng
        self.count = 0
        self.k = dict(blocks=['p', 'div', 'ul', 'ol', 'blockquote', 'pre', 'h', 'dl'], inlines=INLINES,
                      depth=3, special=0.0, links=0.0, images=0.0, br=0.05, unknown=0.0, unique=False,
                      longword=0.0, punct=0.15, words=(1, 14), attrs=0.0, bare=0.1, hyphen=0.03, maxlen=9,
                      children=(1, 4), tabs=True, void=0.0, caps=0.1, href=None, prewords=True, empty=0.03, wrapped=0.0, vocabulary=None)
        self.nested = False
        self.k.update(k)

    # -- text
    def token(self):
        r, k = self.rng, self.k
        if k['vocabulary']:
            return r.choice(k['vocabulary'])
        if k['unique']:
            self.count += 1
            return 'q%dz' % self.count
        if k['special'] and r.random() < k['special']:
            s = r.choice(SPECIAL)
            return s if r.random() < .5 else word(r, 1, 4) + s + word(r, 0, 3)
        if r.random() < k['longword']:
            return word(r, 20, 90)
        w = word(r, 1, k['maxlen'])
        if r.random() < k['caps']:
            w = w.capitalize()
        if r.random() < k['hyphen']:
            w += '-' + word(r, 1, 6)
        if r.random() < k['punct']:
            w += r.choice(['.', '.', ',', '!', '?', '."', ';', ':'])
        return w

    def text(self, n=None):
        r = self.rng
        n = n or r.randint(*self.k['words'])
        return ' '.join(self.token() for _ in range(n))

    def label(self):
        r = self.rng
        out = []
        for _ in range(r.randint(1, 3)):
            if self.k['special'] and r.random() < self.k['special']:
                out.append(_html.unescape(r.choice(SPECIAL)))
            out.append(word(r, 1, 9))
        return ' '.join(out)

    def attrs(self):
        r = self.rng
        a = {}
        if r.random() < self.k['attrs']:
            if r.random() < .7:
                a['class'] = ' '.join(r.sample(['c1', 'c2', 'c3', 'note'], r.randint(1, 2)))
            if r.random() < .3:
                a['id'] = r.choice(['i1', 'i2', 'i3'])
        return a

    def target(self):
        r = self.rng
        if self.k['href']:
            return self.k['href'](r)
        return r.choice(['http://ex.org/%s', 'https://ex.org/a/%s.html', 'gopher://g.org/%s.txt', '/%s', '%s.gif',
                         'dir/%s.txt', 'mailto:%s@ex.org', 'gopher://g.org:7070/1/%s', '%s.d/x']) % word(r, 1, 6, 0)

    # -- inline
    def inline(self, depth, inlink=False):
        r, k = self.rng, self.k
        out = []
        for _ in range(r.randint(1, 3)):
            x = r.random()
            if x < .55 or depth <= 0:
                out.append(r.choice(['', '', '', ' ']) + self.text() + r.choice(['', '', '', ' ']))
            elif x < .55 + k['br']:
                out.append(('br', {}, []))
            elif k['links'] and not inlink and r.random() < k['links']:
                a = {'href': self.target()}
                if r.random() < .3:
                    a['title'] = self.label()
                if r.random() < .1:
                    # what is shown, the title or the target may also be the same
                    t = r.choice([a['href'], a.get('title', 'same')]).strip()
                    if r.random() < .6:
                        a['title'] = t
                    out.append(('a', a, [_html.escape(t)]))
                else:
                    out.append(('a', a, self.inline(depth - 1, True)))
            elif k['images'] and r.random() < k['images']:
                a = {'src': self.target()}
                if r.random() < .8:
                    a['alt'] = self.label() if r.random() < .95 else a['src']
                if r.random() < .15:
                    # a title is not what an image is shown as
                    a['title'] = self.label()
                out.append(('img', a, []))
            elif k['unknown'] and r.random() < k['unknown']:
                out.append((r.choice(['kbd', 'sub', 'x-y', 'abbr']), self.attrs(), self.inline(depth - 1, inlink)))
            elif k['inlines']:
                out.append((r.choice(k['inlines']), self.attrs(), self.inline(depth - 1, inlink)))
            else:
                out.append(self.text())
            if r.random() < .1:
                # only white space between two elements, or before the end of one
                out.append(' ')
        if k['wrapped'] and depth > 0 and not self.nested and r.random() < k['wrapped']:
            # blocks inside an inline (or unknown) element
            self.nested = True
            kids = r.choice([[], [self.text()]]) + [self.block(0) for _ in range(r.choice([1, 1, 2]))] + r.choice([[], [self.text()]])
            self.nested = False
            tag = r.choice(['em', 'span', 'kbd', 'b', 'x-w', 'del'] + (['a'] if k['links'] and not inlink else []))
            out.insert(r.randint(0, len(out)), (tag, {'href': self.target()} if tag == 'a' else self.attrs(), kids))
        return out

    # -- blocks
    def pre(self):
        r = self.rng
        lines = []
        for _ in range(r.randint(1, 5)):
            if r.random() < .2:
                lines.append('')
            else:
                lines.append(' ' * r.choice([0, 0, 1, 2, 4, 8]) +
                             ''.join(self.token() + ' ' * r.choice([1, 1, 2, 3]) for _ in range(r.randint(1, 5))).rstrip())
        kids = ['\n'.join(lines)]
        return ('pre', self.attrs(), [('code', {}, kids)] if r.random() < .5 else kids)

    def flow(self, depth):
        """Children of a block that takes both: blocks, or inline content, or mixed"""
        r = self.rng
        x = r.random()
        if depth <= 0 or x < .35:
            return self.inline(2)
        if x < .7:
            return self.blocks(depth - 1)
        return self.inline(1) + self.blocks(depth - 1) + (self.inline(1) if r.random() < .3 else [])

    def blocks(self, depth, lo=None, hi=None):
        r = self.rng
        lo, hi = lo or self.k['children'][0], hi or self.k['children'][1]
        return [self.block(depth) for _ in range(r.randint(lo, hi))]

    def block(self, depth):
        r, k = self.rng, self.k
        t = r.choice(k['blocks'])
        if r.random() < k['empty']:
            return ('div' if t in ('h', 'dl', 'ul', 'ol') else t, {}, [])
        if t == 'h':
            return ('h%d' % r.randint(1, 6), self.attrs(), self.inline(1))
        if t == 'p':
            return ('p', self.attrs(), self.inline(3))
        if t == 'pre':
            return self.pre()
        if t in ('ul', 'ol'):
            return (t, self.attrs(), [('li', self.attrs(), self.flow(depth)) for _ in range(r.randint(1, 4))])
        if t == 'dl':
            kids = []
            for _ in range(r.randint(1, 3)):
                kids.append(('dt', self.attrs(), self.inline(1)))
                for _ in range(r.randint(0, 2)):
                    kids.append(('dd', self.attrs(), self.flow(depth)))
            return ('dl', self.attrs(), kids)
        if t == 'inline':
            return r.choice(self.inline(2))
        return (t, self.attrs(), self.flow(depth))

    def document(self):
        r = self.rng
        out = self.blocks(self.k['depth'])
        if r.random() < self.k['bare']:
            out.insert(r.randint(0, len(out)), self.text())
        return out


BLOCK_TAGS = {'p', 'div', 'ul', 'ol', 'li', 'dl', 'dt', 'dd', 'blockquote', 'pre', 'section', 'article', 'table', 'tr'} | \
    {'h%d' % i for i in range(1, 7)}
VOID_TAGS = {'br', 'img', 'hr', 'input', 'meta', 'link', 'wbr'}


def esc_attr(v, rng=None):
    return _html.escape(v, quote=True)


def serialize(nodes, rng=None, pretty=0.0, level=0, inpre=False, parent_block=True):
    """HTML text.  Text strings are HTML already (entities included).

    pretty: chance of source white space next to block-level tags and inside
    text, where it has no meaning."""
    out = []

    def ws():
        if rng is None or inpre or rng.random() >= pretty:
            return ''
        return rng.choice(['\n', '\n  ', '\n' + '  ' * level, ' ', '\n\n', '\t', ' \n\t '])

    prev_block = True if parent_block else False
    for i, n in enumerate(nodes):
        if isinstance(n, str):
            t = n
            if rng is not None and pretty and not inpre:
                t = ''.join(rng.choice(['\n', '  ', '\t', '\n   ', ' \n']) if c == ' ' and rng.random() < pretty * .4 else c
                            for c in t)
            out.append(t)
            prev_block = False
            continue
        tag, attrs, kids = n
        block = tag in BLOCK_TAGS
        # white space around block-level siblings, and at the edges of blocks
        if block:
            out.append(ws())
        elif i == 0 and parent_block:
            out.append(ws())
        a = ''.join(' %s' % k if v is None else ' %s="%s"' % (k, esc_attr(v)) for k, v in attrs.items())
        if tag in VOID_TAGS:
            out.append('<%s%s%s>' % (tag, a, rng.choice(['', '/', ' /']) if rng else ''))
        else:
            inner = serialize(kids, rng, pretty, level + 1, inpre or tag == 'pre',
                              block and tag != 'pre')
            out.append('<%s%s>%s</%s>' % (tag, a, inner, tag))
        if block and i == len(nodes) - 1:
            out.append(ws())
        prev_block = block
    return ''.join(out)


def words_of(nodes):
    """All text pieces of a tree in document order."""
    for n in nodes:
        if isinstance(n, str):
            yield n
        else:
            yield from words_of(n[2])


# ------------------------------------------------------------ configurations

def margins(rng, hi=3, chance=.6):
    return [rng.randint(0, 2) if rng.random() < chance else 0, rng.randint(0, hi) if rng.random() < chance else 0,
            rng.randint(0, 2) if rng.random() < chance else 0, rng.randint(0, hi) if rng.random() < chance else 0]


def borders(rng, chance=.5):
    if rng.random() > chance:
        return ['', '', '', '']
    return [rng.choice(['', '-', '=', '~-']), rng.choice(['', '|', ' |', '!!']),
            rng.choice(['', '-', '=', '-~']), rng.choice(['', '|', '| ', ':'])]


def box_settings(rng):
    s = {}
    if rng.random() < .5:
        s['margin'] = margins(rng)
    if rng.random() < .5:
        s['padding'] = margins(rng)
    if rng.random() < .5:
        s['border'] = borders(rng, .9)
    return s


def config(rng, boxes=0.5, styles=0.3, placements=True, gophermap=0.2, narrow=False):
    c = {}
    if rng.random() < .5:
        c['width'] = rng.randint(*((1, 30) if narrow else (30, 100)))
    if rng.random() < .3:
        c['box'] = dict(width=rng.randint(*((1, 30) if narrow else (30, 100))), margin=margins(rng, 5))
        if rng.random() < .3:
            c['box']['padding'] = margins(rng, 3)
    r = {}
    for tag in ('p', 'div', 'blockquote', 'ul', 'ol', 'li', 'pre', 'h1', 'h2', 'dd', 'dt', 'dl'):
        if rng.random() < boxes * .4:
            s = box_settings(rng)
            if s:
                r[tag] = [{'p': 'Paragraph', 'div': 'Block', 'blockquote': 'BlockQuote', 'ul': 'List', 'ol': 'List',
                           'li': 'ListItem', 'pre': 'Pre', 'h1': 'MarkdownHeader', 'h2': 'MarkdownHeader',
                           'dd': 'DefinitionListItem', 'dt': 'DefinitionListTermHeader', 'dl': 'DefinitionList'}[tag], s]
    if rng.random() < styles:
        r.setdefault('p', ['Paragraph', {}])[1].update(paragraph_settings(rng))
    if rng.random() < styles:
        r['h1'] = ['Header', header_settings(rng)]
    if rng.random() < styles * .5:
        r.setdefault('li', ['ListItem', {}])[1].update(
            line_template=rng.choice(['* {}', '- {}', '-> {}', '  + {}']))
    if rng.random() < styles * .5:
        r['ol > li'] = ['OrderedListItem', dict(start_index=rng.choice([0, 1, 5, 98]), step=rng.choice([1, 1, 2, 10]))]
    if rng.random() < (boxes + styles) * .2:
        # settings for elements of any kind, from a rule that names no renderer
        for sel in rng.sample(['.c1', '.note', '.c2.c3', 'div > *', '* + *', '#i1', 'li *', 'p.c1, li.c1', ':first-child', 'section *'], rng.choice([1, 1, 2])):
            s = box_settings(rng) if rng.random() < boxes else {}
            if rng.random() < styles:
                p = paragraph_settings(rng)
                s.update((k, p[k]) for k in p if k in ('justification', 'line_template', 'capitalized', 'initial_indent', 'subsequent_indent'))
            if s:
                r[sel] = [None, s]
    if r:
        c['renderers'] = r
    if placements:
        c['link_placement'] = rng.choice(['footer', 'footer', 'inline', 'after_block'])
        c['image_placement'] = rng.choice(['inline', 'footer', 'after_block'])
        if rng.random() < gophermap:
            c['output_format'] = 'gophermap'
            c['gopher_host'] = rng.choice(['my.host', 'h.example'])
            c['gopher_port'] = rng.choice([70, 7070])
            if c['link_placement'] == 'inline':
                c['link_placement'] = 'footer'
    if rng.random() < .3:
        c['optimise'] = False
    return c


def paragraph_settings(rng):
    s = {}
    if rng.random() < .6:
        s['justification'] = rng.choice(['left', 'full', 'right', 'center', 'full', 'none'])
    if rng.random() < .4:
        s['initial_indent'] = rng.randint(0, 6)
    if rng.random() < .4:
        s['subsequent_indent'] = rng.randint(0, 4)
    if rng.random() < .2:
        s['capitalized'] = True
    if rng.random() < .3:
        s['fix_sentence_endings'] = False
    if rng.random() < .3:
        s['break_long_words'] = False
    if rng.random() < .2:
        s['break_on_hyphens'] = False
    if rng.random() < .2:
        s['line_template'] = rng.choice(['| {}', '{} |', '  {}'])
    return s


def header_settings(rng):
    s = dict(template=rng.choice(['{}', '== {} ==', '# {}', '<{}>']))
    if rng.random() < .4:
        s['capitalized'] = True
    if rng.random() < .3:
        s.update(spread=rng.randint(1, 3), spread_char=rng.choice([' ', '-', '.']))
    if rng.random() < .5:
        s['centered'] = True
    if rng.random() < .6:
        s.update(underlined=True, underline_char=rng.choice(['=', '-', '~']), underline_full=rng.random() < .5)
    return s
