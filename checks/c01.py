"""C01 rendering never fails, whatever the HTML"""
import os
import random
import sys

from vlib import gen, real, ref

ID = 'C01'
TECHNIQUE = 'runtime monitoring: exception, result-type, CPU-time and executed-line monitors over fuzzed documents and configurations'
LEVEL_NOTE = ('Every rendering is watched for exceptions, for the type of the result and for CPU time; on scaling families of documents the executed lines of the '
              'package are counted by the interpreter\'s own line events and their growth under doubling is bounded. Exploration of seeded fuzzed documents and configurations.')
RULE = ('Tag soup, damaged documents and well-formed documents, crossed with all placements, formats, renderers, themes and settings, widths from 1 up and boxes wider than the page; '
        'families of growing documents. Non-trivial: the text has a tag.')
COUNT = {'quick': 24000, 'thorough': 250000}
CPU_LIMIT = 25.0
REQUIRED = {'renderings': 10000, 'damaged documents': 1500, 'tag soups': 3000, 'gophermaps': 800, 'widths below 10': 1500, 'scaling families': 60, 'themed': 300,
            'boxes without room': 500, 'styled': 500, 'rejected configurations': 50}
ASSUMPTIONS = ['Nesting up to 300 elements: beyond about 980 the recursion limit of Python ends the rendering (known finding).',
               'MarkdownHeaderRenderer is a renderer of h1 to h6 only: it takes the level from the name.',
               'Without drop_whitespace, white space that is wrapped again by every surrounding block multiplies: not crossed with nesting.',
               'The underline or spread of a heading that contains headings grows with all of their text: not crossed with nesting.',
               'Selectors with several descendant combinators are not crossed with deep nesting: their evaluation backtracks.']

TAGS = ['p', 'div', 'span', 'em', 'strong', 'b', 'i', 'u', 's', 'del', 'ins', 'code', 'pre', 'ul', 'ol', 'li', 'dl', 'dt', 'dd', 'blockquote', 'a', 'img', 'br', 'hr', 'table',
        'tr', 'td', 'h1', 'h2', 'h3', 'h6', 'h7', 'script', 'style', 'title', 'textarea', 'head', 'body', 'html', 'input', 'x-y', 'svg', 'a:b', 'P', 'LI', 'A', 'Pre', 'meta', 'q',
        'area', 'wbr', 'noscript', 'option', 'p1', 'table', 'kbd', 'plaintext', 'iframe']
URLS = ['', ' ', 'http://', 'http://[', 'http://[::1]:x/', 'http://a:99999/', 'gopher://', 'gopher://:70', 'gopher://h:abc/', 'gopher://[::1/', '//', '///', ':', '::', '?', '#', '%',
        '%zz', 'http://h/%s', 'mailto:', 'javascript:alert(1)', '\n', 'a\nb\tc', '{0}', '{', '}', '{x}', '{}{}{}', 'gopher://h:70:70', 'http://é.fr/ü', 'gopher://\u2100/', 'a.', '.', '..', '.txt', 'a/b.c/d',
        'http://user:pw@h:1/p', 'file:///etc/passwd', 'x' * 300, '\\', "'", '&amp;', '&#0;', '&#x110000;', 'gopher://h:-1/', 'gopher://h: 70/', 'http://h:\u0663/', 'gopher://h:0', '[', ']', 'http://]/',
        'gopher://h:٣/', 'http://h\uff0fx/', 'data:,', '\x00', '\ud7ff', 'gopher://[v1.x]/', 'gopher://[fe80::1%eth0]/', 'gopher://[1.2.3.4]/']
VALUES = [None, '', ' ', 'a', 'a b', 'x y z', '1', '-1', '"', "'", '<', '>', '{}', '{content}', '\n', '\t', '%s', '\x1b[1m', 'é', 'a' * 200, '&lt;', '0', 'c1', 'c1 c2', '#', 'highlight']
ATTRS = ['class', 'id', 'href', 'src', 'title', 'alt', 'name', 'style', 'start', 'value', 'type', 'Class', 'data-x', 'x:y', '"', '=', 'lang', 'checked', "'", '/']
TEXT = ['word', 'a', 'two words', ' ', '  ', '\n', '\t', '\r\n', '\r', '\x0b', '\x0c', '\x85', '\u2028', '\u2029', '\x1c', '\u200b', '\xa0', '\xad', '&amp;', '&', '&#', '&#x', '&#0;', '&#128;', '&#x110000;',
        '&#xd800;', '&lt', '&nosuch;', '&copy', '<', '>', '<<', '>>', '</', '</>', '<>', '< p>', '<!', '<!-', '<?', '<!--', '-->', '<!-- c -->', '<!-->', '<!--->', '<!-- -- -->', '<!DOCTYPE html>',
        '<!DOCTYPE', '<![CDATA[x]]>', '<![CDATA[', ']]>', '<![if IE]>', '<![endif]>', '<!ELEMENT x>', '<!a b>', '<?php echo 1 ?>', '<?xml?>', '{', '}', '{0}', '{content}', '{}', '%s', '%', '\\', '\\1', '\\g<0>',
        '\x1b[1m', '\x1b[', '\x1b', '\x1b[38;5;m', '\x00', '\x07', '\x08', '\x7f', '"', "'", 'é', '日本', '\U0001f600', 'e\u0301', '\ufeff', 'x' * 120, 'a-b-c-d', '---', '- -', 'a--b', '-' * 90, '.', '. A', '." B', '[1]', '](', '|', '*', '1.',
        '\u202e', '\ud7ff', '\x1b[0m', '\x1b[31;1mred\x1b[0m', 'x\x1b[1m', 'ﬃ', 'ß', 'ǆ', 'İ', '0', '\x1f', '\x1e', '\x1d']


def attr(rng):
    n = rng.choice(ATTRS)
    v = rng.choice(URLS) if n in ('href', 'src') and rng.random() < .8 else rng.choice(VALUES)
    if v is None:
        return ' ' + n
    q = rng.choice(['"', '"', "'", ''])
    return ' %s%s=%s%s%s%s' % (n, rng.choice(['', '', ' ']), rng.choice(['', '', ' ']), q, v, q if rng.random() < .97 else '')


def soup(rng):
    out = []
    for _ in range(rng.choice([1, 3, 8, 25, 60])):
        x = rng.random()
        if x < .38:
            out.append('<%s%s%s>' % (rng.choice(TAGS), ''.join(attr(rng) for _ in range(rng.choice([0, 0, 1, 1, 3]))), rng.choice(['', '', '', '/', ' /', ' '])))
        elif x < .58:
            out.append('</%s%s>' % (rng.choice(TAGS), rng.choice(['', '', '', ' ', ' x', '/'])))
        else:
            out.append(rng.choice(TEXT))
    s = ''.join(out)
    if rng.random() < .1:
        s = s[:rng.randint(0, len(s))]
    return s


def nested(rng):
    n = rng.choice([1, 2, 5, 20, 60, 150])
    kinds = rng.choice([[rng.choice(TAGS)], ['div', 'p'], ['ul', 'li'], ['ol', 'li'], ['blockquote'], ['em', 'strong'], ['a'], ['dl', 'dd'], ['blockquote', 'ul', 'li', 'p'], rng.sample(TAGS, 4)])
    if kinds == ['a']:
        n = min(n, 60)
    tags = [kinds[j % len(kinds)] for j in range(n)]
    s = ''.join('<%s%s>%s' % (t, attr(rng) if rng.random() < .1 else '', rng.choice(TEXT) if rng.random() < .3 else '') for t in tags)
    s += rng.choice(['', 'x', 'some words here', '<br>', '<p>', '<img>'])
    if rng.random() < .7:
        for t in reversed(tags):
            s += '</%s>' % t + (rng.choice(TEXT) if rng.random() < .2 else '')
    return s


def damaged(rng):
    d = gen.Doc(rng, wrapped=.06, links=.3, images=.3, unknown=.1, special=.1, longword=.03, void=.1, attrs=.3, depth=rng.choice([0, 1, 2]), children=(1, 3), words=(1, rng.choice([3, 10])), empty=.15, br=.15,
                href=lambda r: r.choice(URLS))
    s = gen.serialize(d.document(), rng, rng.choice([0, .3, .9]))
    for _ in range(rng.choice([0, 1, 1, 3, 8])):
        if not s:
            break
        x, a = rng.random(), rng.randrange(len(s))
        b = min(len(s), a + rng.choice([1, 1, 3, 10]))
        if x < .35:
            s = s[:a] + s[b:]
        elif x < .7:
            s = s[:a] + rng.choice(TEXT + ['</p>', '<p>', '<a>', '</a>', '<li>', '<img>', '<pre>', '</pre>', '<br>']) + s[a:]
        elif x < .85:
            s = s[:a] + s[a:b] * 2 + s[b:]
        else:
            c = rng.randrange(len(s))
            s = s[:a] + s[c:c + (b - a)] + s[b:]
    return s


BLOCKS = ['Block', 'Paragraph', 'Header', 'BlockQuote', 'List', 'ListItem', 'OrderedListItem', 'DefinitionList', 'DefinitionListTermHeader', 'DefinitionListItem', 'Pre']
INLINE = ['Renderer', 'Inline', 'Em', 'Strong', 'Underline', 'Strikethrough', 'Code', 'Break', 'Non', 'AnsiEscapeCode']


def small(rng, hi=4):
    return [rng.choice([0, 0, 1, hi, rng.randint(0, 40)]) if rng.random() < .5 else 0 for _ in range(4)]


def styles(rng):
    s = {}
    if rng.random() < .5:
        s['foreground_colour'] = rng.choice([0, 5, 255, 'red', 'bright_blue', '#abc', '#123456', [1, 2, 3], 'black'])
    if rng.random() < .3:
        s['background_colour'] = rng.choice([0, 255, 'white', '#fff'])
    for e in ('bold', 'underline', 'italic', 'normalise', 'crossed_out', 'framed'):
        if rng.random() < .25:
            s[e] = True
    if rng.random() < .2:
        s['font'] = rng.randint(0, 9)
    return s


def block_settings(rng, kind, sel=''):
    s = {}
    if rng.random() < .4:
        s['margin'] = small(rng)
    if rng.random() < .4:
        s['padding'] = small(rng)
    if rng.random() < .4:
        s['border'] = [rng.choice(['', '-', '=#', '|', '||||||', ' ']) for _ in range(4)]
    if rng.random() < .05:
        s[rng.choice(['margin', 'padding'])] = None
    if kind in ('Paragraph', 'ListItem', 'DefinitionListItem', 'OrderedListItem'):
        if rng.random() < .5:
            s['justification'] = rng.choice(['none', 'full', 'right', 'center', 'left'])
        if rng.random() < .4:
            s['initial_indent'] = rng.choice([0, 1, 5, 30, 90])
        if rng.random() < .4:
            s['subsequent_indent'] = rng.choice([0, 1, 5, 30, 90])
        for k in ('fix_sentence_endings', 'break_long_words', 'break_on_hyphens', 'replace_whitespace', 'expand_tabs', 'capitalized'):
            if rng.random() < .15:
                s[k] = rng.random() < .5
        # (the template of an ordered item takes two arguments: a caller's own one would not fit the renderer of a more specific rule)
        if rng.random() < .3 and not (sel == 'ol > li' and kind == 'OrderedListItem'):
            s['line_template'] = rng.choice(['{}', '> {}', '{} <', '%s {}', '\\{}', '_' * 30 + '{}'] + ['{{}} {}'] * (sel in ('p', 'pre', 'blockquote')))
    elif kind in ('BlockQuote', 'Pre'):
        if rng.random() < .4:
            s['line_template'] = rng.choice(['{}', '| {}', '{} |'] + ['{{{}}}'] * (sel in ('p', 'pre', 'blockquote')))
    elif 'Header' in kind:
        s.update(gen.header_settings(rng))
        if sel not in ('h1', 'h2', 'dt'):
            # the underline of a heading that contains whole blocks has the length of all of them
            s.pop('underlined', None)
            s.pop('spread', None)
    return s


def config(rng):
    c = {}
    c['width'] = rng.choice([1, 1, 2, 3, 4, 5, 7, 10, 20, 30, 67, 67, 67, 100])
    if rng.random() < .2:
        c['box'] = dict(width=rng.choice([1, 2, 5, 20, 67]), margin=small(rng), padding=small(rng))
    r = {}
    for sel in rng.sample(['p', 'div', 'li', 'ol > li', 'ul', 'ol', 'blockquote', 'pre', 'dd', 'dt', 'dl', 'h1', 'h2', '*', 'td', 'em', 'span', 'code', 'a', 'img', 'br', '.c1', '#a', '[title]', 'p:first-child', 'em em', ''],
                          rng.choice([0, 0, 1, 2, 4, 8])):
        x = rng.random()
        if sel == 'a':
            r[sel] = [rng.choice(['Link', 'Link', 'Inline']), dict(templates={'reference': '[{content}][{link_reference}]', 'inline': ['{content}{href}', '{title}']}) if x < .3 else {}]
        elif sel == 'img':
            r[sel] = [rng.choice(['Image', 'Image', 'Inline']), {}]
        elif x < .15 and sel:
            r[sel] = [None, rng.choice([dict(margin=[1, 1, 1, 1]), dict(capitalized=True), dict(bold=True), {}, dict(nosuch=1), dict(padding=[0, 1, 0, 1])])]
        elif x < .7:
            k = 'MarkdownHeader' if sel in ('h1', 'h2') and rng.random() < .5 else rng.choice(BLOCKS)
            r[sel] = [k, block_settings(rng, k, sel)]
        else:
            k = rng.choice(INLINE)
            r[sel] = [k, styles(rng) if k == 'AnsiEscapeCode' else {}] if rng.random() < .7 else k
    if any(s[0] == 'OrderedListItem' for sel, s in r.items() if sel != 'ol > li' and isinstance(s, list)):
        # its template takes two arguments, so that those meant for other renderers do not fit
        for s in r.values():
            if isinstance(s, list) and s[1]:
                s[1].pop('line_template', None)
    if r:
        c['renderers'] = r
    c['link_placement'] = rng.choice(['footer', 'inline', 'after_block'])
    c['image_placement'] = rng.choice(['footer', 'inline', 'after_block'])
    if rng.random() < .2:
        c['output_format'] = 'gophermap'
        c['gopher_host'] = rng.choice(['h', 'my.host', '', 'h'])
        c['gopher_port'] = rng.choice([70, 7070, 0])
        if rng.random() < .9 and c['link_placement'] == 'inline':
            c['link_placement'] = rng.choice(['footer', 'after_block'])
    if rng.random() < .2:
        c['extracted_link_renderers'] = {'a': ['ExtractedLink', dict(max_link_description=rng.choice([0, 1, 10, 1000]), margin=small(rng), templates=['\n{link_reference} {description} {href}', '\n{title}{href}'])],
                                         rng.choice(['img', '.c1', 'p > a', 'a[title]', '*']): [rng.choice(['ExtractedImageLink', 'ExtractedLink']), dict(padding=small(rng), max_link_description=rng.choice([0, 3]))]}
    if rng.random() < .3:
        c['optimise'] = False
    return c


FAMILIES = {
    'paragraphs': lambda n: '<p>one two three</p>' * n,
    'words': lambda n: '<p>' + 'one two ' * n + '</p>',
    'long word': lambda n: '<p>' + 'x' * n * 20 + '</p>',
    'hyphens': lambda n: '<p>' + 'ab-' * n * 5 + '</p>',
    'spaces': lambda n: '<p>a' + ' ' * n * 20 + 'b</p>',
    'newlines': lambda n: '<p>a' + '\n' * n * 20 + 'b</p>',
    'breaks': lambda n: '<p>' + 'x<br>' * n + '</p>',
    'top text': lambda n: 'some text ' * n,
    'div': lambda n: '<div>' * n + 'x' + '</div>' * n,
    'div texts': lambda n: '<div>x y' * n + '</div>' * n,
    'p in p': lambda n: '<p>x y' * n,
    'quotes': lambda n: '<blockquote>x y' * n + '</blockquote>' * n,
    'quoted paragraphs': lambda n: '<blockquote><p>x y</p>' * n,
    'em': lambda n: '<p>' + '<em>x ' * n + '</em>' * n + '</p>',
    'unknown': lambda n: '<x-y>x ' * n,
    'lists': lambda n: '<ul><li>x y' * n + '</li></ul>' * n,
    'numbered lists': lambda n: '<ol><li>x<li>' * n,
    'quoted lists': lambda n: '<ul><li><blockquote>' * n + 'x y',
    'quoted definitions': lambda n: '<dl><dd><blockquote>' * n + 'x y',
    'paragraphs in quotes in items': lambda n: '<ul><li><blockquote><p>' * n + 'x y',
    'definitions': lambda n: '<dl><dt>x</dt><dd>y' * n + '</dd></dl>' * n,
    'items': lambda n: '<ol>' + '<li>x y</li>' * n + '</ol>',
    'links': lambda n: '<p>' + '<a href="x">y</a> ' * n + '</p>',
    'nested links': lambda n: '<p>' + '<a href="x">y ' * n + '</a>' * n + '</p>',
    'anchors in blocks': lambda n: '<div>x<a name="y">z' * n,
    'images': lambda n: '<p>' + '<img src="x" alt="y"> ' * n + '</p>',
    'links in items': lambda n: '<ul>' + '<li><a href="x">y</a></li>' * n + '</ul>',
    'emphasis': lambda n: '<p>' + '<b>x</b> ' * n + '</p>',
    'escapes in nested links': lambda n: '<a href="x">\x1b[1mx\x1b[0my<span><li>' * n,
    'escapes in linked items': lambda n: '<a href="x"><li><em>x</em>' * n,
    'links in quotes': lambda n: '<blockquote><a href="x">y</a>' * n + '</blockquote>' * n,
    'pre': lambda n: '<pre>' + 'a  b\n' * n + '</pre>',
    'stray end tags': lambda n: '<p>' + 'x</b>' * n + '</p>',
    'classes': lambda n: '<p class="%s">x</p>' % ' '.join('c%d' % i for i in range(n)),
    'attributes': lambda n: '<p %s>x</p>' % ' '.join('a%d="x"' % i for i in range(n)),
    'long attribute': lambda n: '<p title="%s">x</p>' % ('x ' * n * 10),
    'long url': lambda n: '<p><a href="%s">x</a></p>' % ('x.' * n * 10),
    'headings': lambda n: '<h1>one two</h1>' * n,
    'long heading': lambda n: '<h1>' + 'one two ' * n + '</h1>',
    'comments': lambda n: '<p>' + 'x<!-- y -->' * n + '</p>',
    'entities': lambda n: '<p>' + '&amp; ' * n + '</p>',
    'escapes': lambda n: '<p>' + '\x1b[1mx\x1b[0m ' * n + '</p>',
    'long escape word': lambda n: '<p>' + '\x1b[1mx\x1b[0m' * n * 4 + '</p>',
    'lone escapes': lambda n: '<p>' + '\x1b[1m' * n * 4 + 'x</p>',
    'open brackets': lambda n: '<p>' + '<' * n * 5 + '</p>',
    'ampersands': lambda n: '<p>' + '&' * n * 5 + '</p>',
    'escape openers': lambda n: '<p>' + '\x1b[1;' * n * 5 + '</p>',
    'table': lambda n: '<table>' + '<tr><td>x</td><td>y</td></tr>' * n + '</table>',
    'sentences': lambda n: '<p>' + 'Ab. Cd! ' * n + '</p>',
}
# there the text runs out of width between the third and the fourth size
NARROWING = ('quoted lists', 'quoted definitions', 'paragraphs in quotes in items')
FAMILY_CONFIGS = [
    dict(), dict(link_placement='after_block', image_placement='after_block'), dict(link_placement='inline'), dict(width=5),
    dict(link_placement='after_block', renderers={'em': ['AnsiEscapeCode', dict(bold=True, underline=True)]}),
    dict(renderers={'p': ['Paragraph', dict(justification='full')], 'div': ['Block', dict(border=['-', '|', '-', '|'], padding=[0, 1, 0, 1])], 'h1': ['Header', dict(spread=1, underlined=True, centered=True)],
                    'em': ['AnsiEscapeCode', dict(bold=True)], 'b': ['AnsiEscapeCode', dict(foreground_colour=3)]}),
    dict(output_format='gophermap', gopher_host='h', image_placement='footer'),
    dict(renderers={'.c1': [None, dict(margin=[0, 0, 0, 0])], 'div > p': [None, dict(margin=[0, 0, 0, 0])], 'li:nth-child(2n+1)': [None, dict(capitalized=True)], 'p ~ p': [None, {}], 'p + p': [None, {}], 'li:nth-last-child(2)': [None, {}]}),
]


def fixed():
    out = []
    for n in FAMILIES:
        for k, c in enumerate(FAMILY_CONFIGS):
            if k < 2 or (len(n) + k) % 3 == 0:
                out.append(dict(family=n, cfg=c))
    # their output once doubled with every level
    out += [dict(family='quoted lists', cfg=dict(renderers={'li': ['ListItem', dict(justification='right', initial_indent=3)]}), sizes=[5, 15]),
            dict(family='numbered lists', cfg=dict(renderers={'ol': ['Pre', dict(border=['', '||||||', '', ''])]}), sizes=[5, 15])]
    htmls = ['', ' ', '\n', '<', '<p', '<p>', '</p>', '<p></p>', '<a>x</a>', '<a href>x</a>', '<img>', '<img src alt>', '<a href="http://[">x</a>', '<a href="gopher://h:x">x</a>', '<p class>x</p>', '<p id>x</p>', '<pre></pre>',
             '<ul></ul>', '<li></li>', '<ol><li></li></ol>', '<dl></dl>', '<dd></dd>', '<blockquote></blockquote>', '<br>', '<h1></h1>', '<hr>', '<input>', '<p><br></p>', '<li><br> x</li>', '<em></em>', '<script>a < b</script>',
             '<style>p{}</style>', '<!-- x', '<![CDATA[x', '<!x', '<?x', '&', '&#', '<a href="x"></a>', '<dt></dt>', '<li>' + 'x' * 200 + '</li>', '<h1>' + 'y ' * 60 + '</h1>', '<p>\x1b[1m</p>', '<p>\x1b[1m \x1b[0m</p>', '<pre>\x85\u2028</pre>',
             '<p>\u2028</p>', '<div>' * 250 + 'x', '<ul><li>' * 100 + 'x', '<blockquote>' * 100 + 'x', '<p>x <span>a<br><kbd></kbd></span></p>', 'x' * 3000, '<li><br>   x y</li>', '<dd>\n  <br>  x</dd>']
    for h in htmls:
        for c in (dict(), dict(width=1), dict(width=2, link_placement='after_block', image_placement='after_block'), dict(link_placement='inline', image_placement='footer'),
                  dict(output_format='gophermap', gopher_host='h', image_placement='footer', width=4), dict(theme='autumn'), dict(theme='monokai'), dict(theme='iced_gopher'),
                  dict(box=dict(width=10, margin=[1, 9, 1, 9], padding=[1, 3, 1, 3])), dict(box=dict(width=20, margin=None, padding=None)),
                  dict(renderers={'*': ['Block', dict(margin=None)], 'p, li, h1, pre': [None, dict(padding=None)]}),
                  dict(renderers={'*': ['Paragraph', dict(initial_indent=90, subsequent_indent=90, justification='full')]}),
                  dict(renderers={'*': ['Header', dict(underline_full=True, centered=True, capitalized=True)]}),
                  dict(renderers={'h1, dt': ['Header', dict(underlined=True, underline_full=True, centered=True, spread=2, capitalized=True)]}),
                  dict(renderers={'*': ['AnsiEscapeCode', dict(bold=True, foreground_colour=0)], 'p': ['Paragraph', dict(justification='center', border=['#', '#', '#', '#'])]})):
            out.append(dict(html=h, cfg=c))
    for cfg in (dict(output_format='gophermap'), dict(output_format='gophermap', link_placement='inline', gopher_host='h')):
        out.append(dict(html='x', cfg=cfg))
    return out


def make(rng, i, tier):
    x = i % 10
    if x < 4:
        kind, h = 'soup', soup(rng)
    elif x < 5:
        kind, h = 'nested', nested(rng)
    elif x < 9:
        kind, h = 'damaged', damaged(rng)
    elif rng.random() < .05:
        n = rng.choice(sorted(FAMILIES))
        return dict(family=n, cfg=tame(config(rng)))
    else:
        d = gen.Doc(rng, wrapped=.06, links=.3, images=.3, unknown=.1, special=.1, depth=2, children=(1, 3), attrs=.3)
        kind, h = 'document', gen.serialize(d.document(), rng, .3)
        if rng.random() < .3:
            return dict(html='<p>%s</p>' % ' '.join(rng.choice(TEXT) for _ in range(rng.randint(1, 20))), kind=kind, cfg=dict(width=rng.choice([1, 3, 10, 40]), renderers={
                'p': ['Paragraph', dict(block_settings(rng, 'Paragraph'), drop_whitespace=False)]}))
    c = config(rng) if rng.random() < .75 else gen.config(rng, narrow=rng.random() < .5)
    if rng.random() < .08:
        c = dict(theme=rng.choice(['autumn', 'monokai', 'iced_gopher']), width=c.get('width', 67), optimise=rng.random() < .5)
        if rng.random() < .7:
            h = '<div class="highlight"><pre><span></span>%s</pre></div>' % h
    if depth(h) > 12:
        tame(c)
    return dict(html=h, cfg=c, kind=kind)


def depth(html):
    best, todo = 0, [(ref.tree(html), 0)]
    while todo:
        n, d = todo.pop()
        best = max(best, d)
        todo += [(k, d + 1) for k in n.elements()]
    return best


def tame(cfg):
    """leave out the settings whose effect multiplies when blocks are nested deeply (see ASSUMPTIONS)"""
    r = cfg.get('renderers') or {}
    for sel, s in list(r.items()):
        if isinstance(s, list) and s[1]:
            for k in ('underlined', 'spread', 'drop_whitespace'):
                s[1].pop(k, None)
    return cfg


# ------------------------------------------------------- executed lines

class Lines:
    """counts the lines of the package that are executed"""
    TOOL = 3

    def __enter__(self):
        self.n = 0
        m = sys.monitoring
        prefix = os.path.join(os.path.realpath(real.REPO), 'gopher_render') + os.sep
        mine = {}

        def on_line(code, line):
            f = code.co_filename
            ok = mine.get(f)
            if ok is None:
                ok = mine[f] = os.path.realpath(f).startswith(prefix)
            if not ok:
                return m.DISABLE
            self.n += 1
        m.use_tool_id(self.TOOL, 'vlib')
        m.register_callback(self.TOOL, m.events.LINE, on_line)
        m.set_events(self.TOOL, m.events.LINE)
        m.restart_events()
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.LINE, None)
        m.free_tool_id(self.TOOL)


def steps(html, kw):
    with Lines() as l:
        out = run(html, kw)
    return l.n, len(out)


def arguments(cfg):
    cfg = dict(cfg)
    theme = cfg.pop('theme', None)
    kw = real.kwargs(cfg)
    for s in kw.get('renderers', {}).values():
        if isinstance(s, tuple) and s[1] and isinstance(s[1].get('foreground_colour'), list):
            s[1]['foreground_colour'] = tuple(s[1]['foreground_colour'])
    if theme:
        import importlib
        kw['renderers'] = importlib.import_module('gopher_render.code_themes.' + theme).renderers
    return kw


def run(html, kw):
    try:
        p = real.load()[0].GopherHTMLParser(**kw)
        with real.quiet():
            p.feed(html)
            p.close()
    except Exception as e:
        raise real.RealError(e)
    if not isinstance(p.parsed, str):
        raise real.RealError(TypeError('the result is a %s' % type(p.parsed).__name__))
    return p.parsed


def refused(cfg):
    return cfg.get('output_format') == 'gophermap' and (cfg.get('link_placement', 'footer') == 'inline' or not cfg.get('gopher_host'))


def judge(case, obs):
    cfg = case['cfg']
    try:
        kw = arguments(cfg)
    except Exception as e:
        raise real.RealError(e)
    if refused(cfg):
        obs.count('rejected configurations')
        try:
            run('x', kw)
        except real.RealError as e:
            if isinstance(e.exc, ValueError):
                return None
            return 'a configuration that cannot work is refused with %s' % e
        return 'a configuration that cannot work is accepted'
    if 'family' in case:
        make_html = FAMILIES[case['family']]
        last = None
        # with random boxes, any family can run out of width between two sizes
        factor = 9 if case['cfg'] in FAMILY_CONFIGS and case['family'] not in NARROWING else 40
        for n in case.get('sizes', (4, 8, 16, 32)):
            k, size = steps(make_html(n), kw)
            if last is not None:
                obs.high('growth under doubling, percent', int(100 * k / max(last[0], 400)))
                if k > factor * last[0] + 5000:
                    return 'executed lines grow from %d to %d when the document (%s, %d) doubles' % (last[0], k, case['family'], n // 2)
                if size > factor * last[1] + 20000:
                    return 'the output grows from %d to %d characters when the document (%s, %d) doubles' % (last[1], size, case['family'], n // 2)
            last = k, size
        obs.count('executed lines', last[0])
        obs.count('scaling families')
        obs.nontrivial()
        return None
    html = case['html']
    obs.nontrivial('<' in html)
    obs.count('renderings')
    kind = case.get('kind')
    if kind == 'soup':
        obs.count('tag soups')
    elif kind == 'damaged':
        obs.count('damaged documents')
    if cfg.get('output_format') == 'gophermap':
        obs.count('gophermaps')
    if 'theme' in cfg:
        obs.count('themed')
    if cfg.get('width', 67) < 10:
        obs.count('widths below 10')
    b = cfg.get('box')
    if b and b['width'] <= sum((b['margin'] or [0])[1::2]) + sum((b.get('padding') or [0])[1::2]):
        obs.count('boxes without room')
    out = run(html, kw)
    obs.count('output characters', len(out))
    if '\x1b' in out:
        obs.count('styled')
    return None
