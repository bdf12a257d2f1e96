"""C18 code themes only add colour"""
import html as _html
import importlib
import json
import os
from html.parser import HTMLParser

from checks import c17
from vlib import gen, oracle, real, ref, sgr

ID = 'C18'
TECHNIQUE = 'runtime monitoring: SGR terminal state machine over themed renderings of highlighted code, against the theme tables and the themeless rendering'
LEVEL_NOTE = ('Real highlighter output of many languages and generated token markup are rendered with every bundled theme; a terminal state machine decides the style of every character of every token, '
              'expected from the recorded theme tables by an independent resolution of the rules. Exploration of seeded sources and themes.')
RULE = ('Sources of 25 languages assembled from snippets, damaged at random, with and without line numbers and highlighted lines, Markdown documents, and generated nested token spans of every class, in blocks and prose, for every bundled theme. '
        'Non-trivial: at least one styled character.')
COUNT = {'quick': 9000, 'thorough': 120000}
REQUIRED = {'styled characters': 400000, 'judged characters': 600000, 'token classes': 20000, 'sequences': 100000, 'token elements with several classes': 3000, 'prose documents': 1000, 'pygments documents': 3000}
ASSUMPTIONS = ['The theme tables of the reviewed tree are recorded in vlib/themes.json (tools/mkthemes.py); a theme added later is judged by its own table.',
               'Token classes stand on span elements, as highlighters write them.', 'An element inside another that sets the same kind of style ends it for both, as terminals do.']
HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, '..', 'vlib', 'themes.json')) as f:
    RECORDED = json.load(f)
CLASSES = sorted({c.strip().split('.')[-1] for rules in RECORDED.values() for s, _ in rules for c in s.split(',')} | {'lineno', 'fm', 'dl', 'sa', 'vm', 'g', 'x', 'n', 'w'} - {'highlight'})
CLASSES.remove('highlight')

SNIPPETS = {
    'python': ['@deco\ndef f(x, *a):\n    """doc\n    more"""\n    return x + 0x1f  # c', 'class A(B):\n    def __init__(self): self.y = f"{x!r} {1:>3}"', 'raise ValueError(\'\\n\') if not None else 1.5e3', 'from os import path as p', 'assert a @ b, r"\\d"', 'x = ?'],
    'c': ['#include <stdio.h>\n/* c\n d */', 'int main(void) {\n\treturn 0x1fUL; // x\n}', "char *s = \"a\\n\", c = '\\0';", '#define X(a) \\\n  (a)', 'label: goto label;'],
    'java': ['@Override public class A<T> extends B { }', 'int x = 017; /** doc */', 'String s = "a" + 1L;', 'package a.b;\nimport c.*;'],
    'javascript': ['const f = (a) => `t${a}`;', '// c\nlet r = /a+/g;', 'class A extends B { get x() { return this; } }', 'var o = {a: 1e3, "b": null};'],
    'html': ['<p class="a">t &amp; u</p>', '<!-- c -->\n<br/>', '<script>var x = 1;</script>', '<!DOCTYPE html>', '<style>a { b: c }</style>'],
    'css': ['a:hover > .b#c { color: #fff; }', '@media print { p { margin: 1px !important } }', '/* c */'],
    'bash': ['#!/bin/sh\nfor i in *; do echo "$i" `ls` $(pwd); done', "x='a' # c", 'cat <<E\nheredoc\nE', 'if [ -f $1 ]; then exit 0; fi'],
    'diff': ['--- a\n+++ b\n@@ -1 +1 @@\n-x\n+y\n z', 'Index: f\n====', 'diff -u a b'],
    'pycon': ['>>> 1/0\nTraceback (most recent call last):\n  File "<stdin>", line 1, in <module>\nZeroDivisionError: division by zero', '>>> x\n1\n... y'],
    'console': ['$ ls -l\nfile', '# apt install "x"\nout'],
    'json': ['{"a": [1, -2.5e1, null, true], "b": {}}', '{"x": "\\u00e9"}'],
    'xml': ['<?xml version="1.0"?>\n<a b="c"><![CDATA[x]]></a>'],
    'sql': ["SELECT a, 'b' FROM t WHERE x >= 1 -- c", '/* d */ CREATE TABLE t (i INT);'],
    'ruby': ['def f(x) :sym end # c', 'puts "#{x}" if @a && $g && @@c', '/re/ =~ %w(a b)'],
    'haskell': ['module M where\nf :: Int -> [a]\nf x = x + 1 -- c', '{- d -} data T = A | B'],
    'rust': ["fn main<'a>() -> u8 { println!(\"{}\", 1u8); }", '#[derive(Debug)]\nstruct S; // c\n/// doc'],
    'go': ['package main\nfunc f() (int, error) { return 1, nil } // c', "r := 'a'; s := `raw`"],
    'rst': ['Title\n=====\n\n*em* **strong** ``lit``', '.. note:: x\n   y', ':ref:`a`'],
    'make': ['all: a b\n\techo $(X) # c', 'X := y', '.PHONY: all'],
    'ini': ['[s]\nk = v ; c\n# d'],
    'yaml': ['a: &x\n  - "b"\n  - 1 # c', '--- !t'],
    'perl': ['my @a = qw(a b); # c', 'print "x$y" if /re/i;', '=pod\n\nd\n\n=cut'],
    'tex': ['\\section{A} % c\n$x^2$'],
    'lua': ['local x = 1 -- c\nfunction f() return [[a\nb]] end'],
    'php': ['<?php $x = "a$y"; // c\n/** d */ function f() {} ?>text'],
}


def fixed():
    out = []
    for theme in sorted(RECORDED) or []:
        for c in CLASSES:
            out.append(dict(kind='tokens', theme=theme, html='<div class="highlight"><pre><span class="%s">a b</span> c\n<span class="%s">d</span>\n</pre></div>' % (c, c)))
        out.append(dict(kind='tokens', theme=theme, html='<pre><code><span class="k">a</span> <span class="err">b</span></code></pre>'))
    return out


def source(rng):
    lang = rng.choice(sorted(SNIPPETS))
    lines = rng.choice(['\n', '\n', '\n\n']).join(rng.choice(SNIPPETS[lang]) for _ in range(rng.randint(1, 6)))
    if rng.random() < .3:
        n = rng.randrange(len(lines))
        lines = lines[:n] + rng.choice(['§', '?', '"', '\t', '<', '&', '{}', '%s', '\\', 'é', "'''", '  ', '}', '\x00'.strip('\x00')]) + lines[n + rng.choice([0, 0, 3]):]
    if rng.random() < .2:
        lines = '\n'.join('    ' + l for l in lines.split('\n'))
    return lang, lines


def tokens(rng):
    """generated token markup"""
    out = []
    for _ in range(rng.randint(1, 6)):
        line = [' ' * rng.choice([0, 0, 2, 4])]
        for _ in range(rng.randint(0, 6)):
            x = rng.random()
            t = _html.escape(rng.choice([gen.word(rng), gen.word(rng), '(', '):', '==', '{}', '"a b"', '&', '<']))
            if x < .25:
                line.append(t)
            else:
                cs = rng.sample(CLASSES, 0 if x > .99 else 1 if x < .7 else rng.choice([1, 2, 3]))
                if rng.random() < .2:
                    t = '<span class="%s">%s</span>%s' % (rng.choice(CLASSES + ['x', 'x', 'x']), t, rng.choice(['', 'x']))
                if rng.random() < .1:
                    cs[:1] = [rng.choice(['gd', 'gi'])]
                line.append('<span class="%s">%s</span>' % (rng.choice([' ', ' ', '  ']).join(cs), t))
            line.append(rng.choice(['', ' ', ' ', '  ']))
        out.append(''.join(line))
    body = '\n'.join(out) + rng.choice(['', '\n'])
    if rng.random() < .15:
        body = '<span class="hll">%s\n</span>%s' % (out[0], '\n'.join(out[1:]))
    return body


def make(rng, i, tier):
    theme = rng.choice(sorted(RECORDED))
    cfg = dict(optimise=False) if rng.random() < .5 else {}
    if rng.random() < .3:
        cfg['width'] = rng.choice([20, 40, 100])
    x = rng.random()
    if x < .4:
        lang, text = source(rng)
        return dict(kind='pygments', theme=theme, lang=lang, text=text, cfg=cfg, options=dict(rng.choice([{}, {}, {'linenos': 'inline'}, {'hl_lines': [1, 3]}, {'wrapcode': True}])))
    if x < .6:
        parts = []
        for _ in range(rng.randint(1, 4)):
            if rng.random() < .5 or (theme == 'autumn' and parts and parts[-1][:1] == '`'):
                parts.append(' '.join(gen.word(rng) for _ in range(rng.randint(1, 30))))
            else:
                lang, text = source(rng)
                parts.append('```%s\n%s\n```' % (lang, text.replace('```', '')))
        return dict(kind='markdown', theme=theme, text='\n\n'.join(parts) + '\n', cfg=cfg)
    if x < .85:
        body = tokens(rng)
        html = rng.choice(['<div class="highlight"><pre>%s</pre></div>', '<div class="highlight"><pre><span></span><code>%s</code></pre></div>', '<pre class="highlight"><code>%s</code></pre>' if rng.random() < .2 else '<div class="wide"><pre>%s</pre></div>',
                           '<div class="highlight wide"><div><pre>%s</pre></div></div>']) % body
        if theme == 'autumn' and '<pre class="highlight"' in html:
            html = html.replace('<pre class="highlight"', '<pre')
        return dict(kind='tokens', theme=theme, html=html, cfg=cfg)
    d = gen.Doc(rng, wrapped=.06, inlines=['span', 'span', 'em', 'code'], words=(1, rng.choice([4, 15, 40])), depth=rng.choice([0, 1, 2]), children=(1, 3), attrs=0, br=.05, links=.1, images=.05,
                blocks=['p', 'p', 'div', 'ul', 'ol', 'blockquote', 'dl', 'h', 'pre'], empty=0, punct=.3)
    nodes = d.document()

    def classify(ns):
        return [n if isinstance(n, str) else (n[0], {'class': ' '.join(rng.sample(CLASSES, rng.choice([1, 1, 2])))} if n[0] == 'span' else n[1], classify(n[2])) for n in ns]
    nodes = classify(nodes)
    html = gen.serialize(nodes)
    if rng.random() < .5 and theme != 'autumn':
        html = '<div class="highlight">%s</div>' % html
    c = gen.config(rng, styles=.5, boxes=.3)
    c.pop('box', None)
    if c.get('output_format') == 'gophermap':
        c.pop('output_format')
    c['width'] = rng.choice([30, 67, 67, 100])
    return dict(kind='prose', theme=theme, html=html, cfg=c)


def to_html(case):
    if 'html' in case:
        return case['html']
    if case['kind'] == 'pygments':
        from pygments import highlight
        from pygments.formatters import HtmlFormatter
        from pygments.lexers import get_lexer_by_name
        return highlight(case['text'], get_lexer_by_name(case['lang']), HtmlFormatter(cssclass='highlight', **case['options']))
    import markdown
    md = markdown.Markdown(extensions=['markdown.extensions.codehilite', 'markdown.extensions.extra'], extension_configs={'markdown.extensions.codehilite': {'css_class': 'highlight'}}, output_format='html5')
    return md.convert(case['text'])


class Spans(HTMLParser):
    """the text with the classes of the elements around it"""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.stack, self.events, self.multi, self.classes = [], [], 0, 0

    def handle_starttag(self, tag, attrs):
        if tag in ref.VOID:
            return
        cs = (dict(attrs).get('class') or '').split()
        self.classes += len(cs)
        self.multi += len(cs) > 1
        self.stack.append((tag, cs))
        self.events.append(('open', list(self.stack)))

    def handle_endtag(self, tag):
        if self.stack and self.stack[-1][0] == tag:
            self.events.append(('close', list(self.stack)))
            self.stack.pop()

    def handle_data(self, data):
        self.events.append(('text', data))


def settings_for(stack, rules):
    """what the theme's table gives the innermost element, or None"""
    found = []
    for k, (selector, settings) in enumerate(rules):
        best = None
        for s in selector.split(','):
            names = s.split()
            if names[-1][1:] not in stack[-1][1]:
                continue
            above = [cs for _, cs in stack[:-1]]
            for name in reversed(names[:-1]):
                while above and name[1:] not in above[-1]:
                    above.pop()
                if not above:
                    break
                above.pop()
            else:
                best = max(best or 0, len(names))
        if best:
            found.append((best, k, settings))
    if not found:
        return None
    out = {}
    for _, _, s in sorted(found, key=lambda f: f[:2]):
        out.update(s)
    return out


def empty(events, k):
    """-> whether the element that is opened by event k has nothing in it but line breaks and others like itself"""
    depth = 0
    ends = '\n' if any(tag == 'pre' for tag, _ in events[k][1]) else ''
    for kind, x in events[k:]:
        if kind == 'text':
            if x.strip(ends) if ends else x:
                return False
        elif x[-1][0] != 'span':
            return False
        else:
            depth += 1 if kind == 'open' else -1
            if depth == 0:
                return True
    return False


def expected(html, rules):
    p = Spans()
    p.feed(html)
    p.close()
    state, out, on = {}, [], []
    for k, (kind, x) in enumerate(p.events):
        if kind == 'text':
            out += [(c, state) for c in x if not c.isspace()]
        elif kind == 'open':
            s = settings_for(x, rules)
            if empty(p.events, k):
                # nothing to show in any style
                s = None
            on.append(s)
            if s:
                state = sgr.enter(state, s)
        else:
            s = on.pop()
            if s:
                state = sgr.leave(state, s)
    return out, p


def theme(name):
    return importlib.import_module('gopher_render.code_themes.' + name).renderers


def judge(case, obs):
    real.load()
    try:
        table = theme(case['theme'])
    except Exception as e:
        raise real.RealError(e)
    html, cfg = to_html(case), dict(case.get('cfg') or {})
    plain = oracle.text(html, cfg, obs)
    keep = [(s, dict(v[1]) if isinstance(v, tuple) and v[1] else v) for s, v in table.items()]
    kw = real.kwargs(cfg)
    kw['renderers'] = {**kw['renderers'], **table} if 'renderers' in kw else table
    try:
        p = real.load()[0].GopherHTMLParser(**kw)
        with real.quiet():
            p.feed(html)
            p.close()
        themed = p.parsed
    except Exception as e:
        raise real.RealError(e)
    if keep != [(s, dict(v[1]) if isinstance(v, tuple) and v[1] else v) for s, v in table.items()]:
        return 'the rendering changed the theme %s' % case['theme']
    obs.count({'pygments': 'pygments documents', 'markdown': 'markdown documents', 'tokens': 'token documents', 'prose': 'prose documents'}[case['kind']])
    try:
        got, final, n = sgr.scan(themed)
    except sgr.BadSequence as e:
        return 'not a standard sequence: %r in %r' % (str(e), themed[:2000])
    obs.count('sequences', n)
    a, b = (plain, sgr.strip(themed))
    if cfg.get('optimise', True) or case['theme'] == 'autumn':   # its rule for the whole block leaves no padding
        a, b = ref.rstrip_lines(a), ref.rstrip_lines(b)
    message = oracle.first_difference(a, b)
    if message:
        return 'theme %s: without the escape sequences the output differs: %s' % (case['theme'], message)
    if final:
        return 'theme %s: style %s is still active at the end' % (case['theme'], final)
    styled = sum(1 for _, s in got if s)
    obs.count('styled characters', styled)
    obs.nontrivial(styled)
    rules = RECORDED.get(case['theme']) or [[s, v[1]] for s, v in table.items()]
    want, p = expected(html, rules)
    obs.count('token classes', p.classes)
    obs.count('token elements with several classes', p.multi)
    got = [(c, s) for c, s in got if not c.isspace()]
    if case['kind'] == 'prose':
        # judged by letters, where the marks of the blocks add none
        got, want = ([(c, s) for c, s in x if c.isalpha()] for x in (got, want))
        if [c for c, _ in got] != [c for c, _ in want]:
            obs.count('prose with generated letters, styles not judged')
            return None
    if [c for c, _ in got] != [c for c, _ in want]:
        return 'visible characters are %r, expected %r' % (''.join(c for c, _ in got), ''.join(c for c, _ in want))
    obs.count('judged characters', len(got))
    for k, ((c, s), (_, e)) in enumerate(zip(got, want)):
        if s != e:
            return 'theme %s: character %d (%r) is shown as %s, expected %s in %r' % (case['theme'], k, c, s, e, themed[:2000])
    return None
