"""C05 renderer rules select elements as CSS defines"""
from vlib import css, gen, probe, ref

ID = 'C05'
TECHNIQUE = 'runtime monitoring: probe renderers report which rules reached each element; an independent CSS engine decides which ones should have'
LEVEL_NOTE = ('Every (rule, element) decision of a real rendering is observed through the settings that reach a caller-supplied renderer and judged by a separately '
              'written CSS parser and matcher. Exploration of random trees and selectors of the supported grammar.')
RULE = ('Random element trees (classes, ids, attributes with odd values, text and comments between, void and unclosed elements, up to dozens of siblings) crossed with '
        'random selectors of the whole supported grammar, biased to what is in the tree. Non-trivial: some rule hits and some misses.')
COUNT = {'quick': 40000, 'thorough': 700000}
REQUIRED = {'decisions': 500000, 'hits': 50000, 'hits of :not': 2000, 'hits of [': 3000, 'hits of nth-': 3000, 'hits of +': 1000, 'hits of ~': 1000, 'hits of >': 3000,
            'hits of two combinators': 2000, 'hits of lists': 5000, 'documents after a reset': 3000, 'documents with equal elements': 3000, 'hits of upper case': 3000}
TAGS = ['div', 'p', 'li', 'ul', 'ol', 'em', 'span', 'x-y', 'section', 'a', 'dt', 'blockquote']
CLASSES = ['c', 'd', 'cc', 'c-d', 'e', 'd-', 'ec', 'cd', 'é', 'C']
IDS = ['i', 'j', 'i-j']
VALUES = ['', 'en', 'en-US', 'e', 'en US', 'a b c', 'b', 'a', 'US', 'eN', 'x"y', 'é', 'a-b', ' en ', 'enen', 'en-', '-en', 'a\tb', '1', 'http://h.org/f.gif', '.gif', 'org', 'a/', '/a', '/a/', 'b/a', 'b a/']


UNSUPPORTED = [':hover', ':empty', ':first-of-type', ':nth-of-type(1)', ':only-child', ':root', ':link', ':where(p)', ':has(p)', ':lang(en)', ':nth-last-of-type(2n)', ':nth-child(2 of p)',
               ':focus', ':checked', ':last-of-type', ':only-of-type', ':nth-col(1)', ':nth-child(x)', ':nth-child(2.5)', ':nth-last-child(n n)', ':any-link', ':x-y', ':dir(ltr)']


def fixed():
    out = []
    html = '<ul n="0">' + ''.join('<li n="%d">t</li>' % i for i in range(1, 26)) + '</ul>'
    sel = ['li:nth-child(%s)' % s for s in ('n', '2n', '2n+1', 'odd', 'even', '3n-1', '3n - 1', '-n+4', '-2n+7', '5', '0', '-1', 'n+3', '-n', '0n+2', '+3n', '4n+9', '-3n+20', '10n-1', '1n+0', '2n+0', '24', '25', '26')]
    out.append(dict(html=html, rules=sel))
    out.append(dict(html=html, rules=[s.replace('nth-child', 'nth-last-child') for s in sel]))
    html = '<ul n="0">' + ''.join('<li n="%d">t</li>' % i for i in range(1, 300)) + '<b n="300">t</b></ul>'
    out.append(dict(html=html, rules=['li:nth-child(%s)' % s for s in ('250', '7n+201', '-n+260', '299', 'n+290')] + ['li:nth-last-child(%s)' % s for s in ('250', '300', 'n+280')] +
                    ['li:first-child ~ b', 'li:nth-child(200) ~ b', 'li:nth-child(290) ~ li', 'li + b', 'li:nth-child(3) ~ li', 'b:last-child']))
    html = '<p n="0" class="%s" %s>x</p>' % (' '.join('c%d' % i for i in range(40)), ' '.join('a%d="v%d"' % (i, i) for i in range(40)))
    out.append(dict(html=html, rules=['.c0', '.c39', '.c20.c39', '.c40', '[a39]', '[a39="v39"]', '[a0^="v"][a38$="8"]', '[class~="c39"]', '[class$="c38 c39"]', ':not(.c39)']))
    html = '<div n="0" lang="en-US" t="" u class="c  d" id="i"><p n="1" lang="en" class="">a<em n="2" lang="a b c">b</em></p>text<p n="3" t="x y" class="c">d</p><!-- c --><br n="4"><p n="5" id="i">e</div>'
    sel = [':not(p)', '[t]', '[u]', '[t=""]', '[u=""]', '[t^=""]', '[u*=""]', '[t~=""]', '[lang|=en]', '[lang="en"]', '[lang~=b]', '[lang~="a b"]', '[class="c d"]', '[class="c  d"]', '[class|=c]', '[class^="c  "]', '.c.d', '#i', '#i.c',
           'div p', 'div > p', 'p + p', 'p ~ p', 'p + br', 'br + p', 'div > p ~ p > em', 'div em', 'p:first-child', 'p:last-child', ':first-child', 'em:first-child:last-child', '*', '* *', '* > *',
           'p::before', 'p:before', ':hover', 'p:not(:hover)', ':empty', 'p:first-of-type', 'p:nth-of-type(1)', 'p, em', 'em, #zz, [lang=zz]', 'div:not(.c)', ':not([t])', 'p:not(:first-child)',
           '[lang^=e]', '[lang$=c]', '[lang*="-"]', '[lang$="US"]', '[lang^=US]', 'html', 'p > p', 'em p', 'P', 'DIV > P', 'p[LANG]', '[Lang|=en]', 'P:First-Child', 'p:NTH-CHILD(2)', 'p:nth-child(ODD)', 'p:nth-last-child(2N+1)', ':NOT(P)', '[CLASS=c]', '.C', '#I', '[lang=EN]']
    out.append(dict(html=html, rules=sel))
    out.append(dict(html=html, rules=UNSUPPORTED + [':not(%s)' % s for s in UNSUPPORTED]))
    return out


def attrs(rng, n):
    a = []
    if rng.random() < .5:
        a.append('class="%s"' % rng.choice([' ', ' ', ' ', '  ', '\t', '\n', '\x0c', '\u00a0', '\x0b', '\u2003']).join(rng.choice(CLASSES) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 6]))))
    if rng.random() < .2:
        a.append('id="%s"' % rng.choice(IDS))
    for name in ('lang', 'href', 'data-x'):
        if rng.random() < .25:
            v = rng.choice(VALUES)
            a.append(name if not v and rng.random() < .5 else '%s="%s"' % (name, gen.esc_attr(v)))
    if rng.random() < .02:
        a.append('class')
    rng.shuffle(a)
    if n is not None:
        a.insert(rng.randint(0, len(a)), 'n="%d"' % n)
    return ''.join(' ' + x for x in a)


def make(rng, i, tier):
    n = [0]
    tags = rng.sample(TAGS, rng.choice([2, 3, 3, 5]))
    big = rng.random() < .05
    marks = rng.random() < .4

    def nodes(depth):
        out = []
        for _ in range(rng.randint(20, 45) if big and depth == 2 else rng.randint(1, 5)):
            x = rng.random()
            if x < .15 and not big:
                out.append(rng.choice(['text', ' ', '\n', '<!-- c -->', '&amp;', 'a<!-- x -->b']))
                continue
            k = n[0]
            n[0] += 1
            if x < .25:
                out.append('<%s%s%s>' % (rng.choice(['br', 'hr', 'img']), attrs(rng, k if marks else None), rng.choice(['', ' /'])))
                continue
            t = rng.choice(tags)
            out.append('<%s%s>%s%s' % (t, attrs(rng, k if marks else None), nodes(depth - 1) if depth > 0 and rng.random() < .6 else rng.choice(['', 't']),
                                        '</%s>' % t if rng.random() < .98 else ''))
            if n[0] > 60:
                break
        return ''.join(out)
    html = nodes(rng.choice([0, 1, 2, 2, 3, 4]))
    n[0] = 0
    before = nodes(rng.choice([0, 1, 2])) if rng.random() < .2 else None
    return dict(html=html, before=before, rules=[selector(rng, tags) for _ in range(rng.randint(3, 14))])


def case_of(rng, s):
    """Names of elements and attributes, and an+b, are not case-sensitive."""
    return s if rng.random() < .9 else s.upper() if rng.random() < .7 else s.title()


def series(rng):
    return case_of(rng, plain_series(rng))


def plain_series(rng):
    x = rng.random()
    if x < .2:
        return rng.choice(['odd', 'even', 'n', '-n', '0'])
    if x < .45:
        return str(rng.choice([1, 1, 2, 3, 4, 7, -2]))
    a = rng.choice(['', '-', '2', '3', '-1', '-2', '-3', '4', '0', '+2', '7'])
    b = rng.choice(['', '', '+1', '+2', '+3', '-1', '-2', '+0', '+5', '-4', '+9'])
    if b and rng.random() < .3:
        b = ' %s %s' % (b[0], b[1:])
    return a + 'n' + b


def simple(rng):
    x = rng.random()
    if x < .35:
        return '.' + rng.choice(CLASSES)
    if x < .45:
        return '#' + rng.choice(IDS)
    if x < .7:
        name = rng.choice(['lang', 'lang', 'href', 'data-x', 'class', 'id', 'zz'])
        name = case_of(rng, name)
        if rng.random() < .2:
            return rng.choice(['[%s]', '[ %s ]']) % name
        v = rng.choice(VALUES + CLASSES)
        op = rng.choice(['=', '~=', '|=', '^=', '$=', '*='])
        if v.isalnum() and v.isalpha() and rng.random() < .5:
            q = v
        elif '"' in v:
            q = "'%s'" % v
        else:
            q = '"%s"' % v if rng.random() < .7 else "'%s'" % v
        return '[%s%s%s]' % (name, op, q)
    if x < .82:
        return case_of(rng, rng.choice([':first-child', ':last-child']))
    if x < .97:
        return ':%s(%s)' % (case_of(rng, rng.choice(['nth-child', 'nth-last-child'])), series(rng))
    return rng.choice(UNSUPPORTED)


def compound(rng, tags):
    x = rng.random()
    t = rng.choice(tags + ['br', 'hr', 'img']) if x < .55 else '*' if x < .65 else ''
    t = case_of(rng, t)
    parts = [simple(rng) for _ in range(rng.choice([0, 0, 1, 1, 2]) if t else rng.choice([1, 1, 1, 2, 3]))]
    if rng.random() < .2:
        parts.insert(rng.randint(0, len(parts)), ':%s(%s)' % (case_of(rng, 'not'), case_of(rng, rng.choice(tags)) if rng.random() < .3 else simple(rng)))
    return t + ''.join(parts)


def selector(rng, tags):
    out = []
    for _ in range(rng.choice([1, 1, 1, 1, 2, 3])):
        s = compound(rng, tags)
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            s += rng.choice([' ', '  ', ' > ', '>', ' + ', '+', ' ~ ', '~', ' > ', ' ']) + compound(rng, tags)
        if rng.random() < .02:
            s += rng.choice(['::before', ':after', '::first-line', ':first-letter', '::x-y'])
        out.append(s)
    return rng.choice([', ', ',', ' , ']).join(out)


def setup():
    global Probe, BUILTIN
    Probe = probe.make()
    BUILTIN = {sel: Probe for sel, (kind, _) in ref.RULES if kind}
    BUILTIN[''] = Probe


def postorder(node):
    out = []
    for c in node.elements():
        out += postorder(c) + [c]
    return out


def judge(case, obs):
    rules = list(dict.fromkeys(case['rules']))
    m = dict(BUILTIN)
    for k, sel in enumerate(rules):
        m[sel] = (Probe, {'r%d' % k: True})
    if case.get('before'):
        obs.count('documents after a reset')
    result, events = probe.run(case['html'], before=case.get('before'), renderers=m, link_placement='inline')
    nodes = postorder(ref.tree(case['html']))
    if [x[1].tag for x in events] != [x.tag for x in nodes] or any(x[1].attrs.get('n') != y.attrs.get('n') for x, y in zip(events, nodes)):
        got = [(x[1].tag, x[1].attrs.get('n')) for x in events]
        want = [(x.tag, x.attrs.get('n')) for x in nodes]
        return 'the elements were rendered as %s, expected %s' % (got[:40], want[:40])
    parsed = [css.parse(s) for s in rules]
    hits = misses = 0
    for place, (node, event) in enumerate(zip(nodes, events)):
        reached = {k for k in range(len(rules)) if 'r%d' % k in event[2]}
        for k, sel in enumerate(parsed):
            want, _ = css.match(node, sel)
            got = k in reached
            obs.count('decisions')
            if want:
                hits += 1
                s = rules[k]
                for mark in (':not', '[', 'nth-', '+', '~', '>', 'first-child', 'last-child'):
                    if mark in s:
                        obs.count('hits of ' + mark)
                if s != s.lower():
                    obs.count('hits of upper case')
                if ',' in s:
                    obs.count('hits of lists')
                if any(len(x) >= 5 for x in sel):
                    obs.count('hits of two combinators')
            else:
                misses += 1
            if want != got:
                return 'the rule %r %s element %d to be rendered (<%s>, n=%s), by the CSS definition it %s' % (
                    rules[k], 'reached' if got else 'did not reach', place + 1, node.tag, node.attrs.get('n'), 'should not' if got else 'should')
    obs.count('hits', hits)
    obs.count('elements', len(nodes))
    obs.high('siblings', max([0] + [len(x.parent.elements()) for x in nodes]))
    if len(set(str((x.tag, x.attrs)) for x in nodes)) < len(nodes):
        obs.count('documents with equal elements')
    obs.nontrivial(hits and misses)
    return None
