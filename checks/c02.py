"""C02 document text is conserved, in order"""
import re

from vlib import gen, large, oracle, real, ref

ID = 'C02'
TECHNIQUE = 'runtime monitoring: token-conservation monitor over rendered documents, visible-character comparison with a reference renderer'
LEVEL_NOTE = ('Every generated rendering is judged by a conservation monitor (unique tokens exactly once, in order; every other '
              'visible character accounted for by an independent reference renderer). Exploration: seeded random and fixed '
              'documents and configurations; assurance is limited to what was generated. Trusts the standard HTML tokenizer.')
RULE = ('Random documents of known and unknown elements with uniquely numbered words (or hostile words), random white space, '
        'widths, boxes, justifications and placements. Non-trivial: at least five words and two nested elements.')
COUNT = {'quick': 9000, 'thorough': 150000}
REQUIRED = {'words tracked': 10000, 'words compared': 100000, 'entries': 200, 'cases with unknown elements': 300, 'nested three deep': 500}
TOKEN = re.compile(r'q(\d+)z')
TAILS = ['R&D', 'fish & chips', 'AT&T', 'a &amp', 'b &lt;', 'x < y', 'x<', 'end &', 'x &#65', 'x &#x41;', 'v &copy', 'one', '&nbsp;two', 'u&v&w']
PLAIN = dict(templates=['\n{{{link_reference}| |{href}}}'] * 2)


def fixed():
    c = {'link_placement': 'footer'}
    out = []
    for h in ('<p>q1z q2z</p>q3z<p>q4z</p>', '<ul><li>q1z<ul><li>q2z<ol><li>q3z</li></ol></li></ul></li></ul>q4z',
              '<blockquote>q1z <p>q2z</p> q3z</blockquote>', '<div>q1z<div>q2z</div><p>q3z</p>q4z</div>',
              '<p>q1z<br>q2z<br/>q3z</p>', '<dl><dt>q1z</dt><dd>q2z<p>q3z</p></dd></dl>',
              '<p>q1z <a href="x">q2z q3z q4z</a> q5z <a href="y">q6z</a></p>', '<table><tr><td>q1z</td><td>q2z</td></tr></table>',
              '<pre>q1z\n\n  q2z</pre>', 'q1z', '<p>q1z', 'q1z <em>q2z</em><em>q3z</em> q4z', '<h1>q1z <em>q2z</em></h1><p><code>q3z</code></p>',
              '<ol>' + ''.join('<li>q%dz</li>' % i for i in range(1, 120)) + '</ol>',
              '<p>' + ' '.join('q%dz' % i for i in range(1, 900)) + '</p>',
              '<p>' + ' '.join('<b>q%dz</b>' % i for i in range(1, 90)) + '</p>',
              '<div>' * 40 + 'q1z <p>q2z</p>' + '</div>' * 40 + 'q3z',
              '<p>q1z</p></div><p>q2z</p>', '<li>q1z</li><dd>q2z</dd><dt>q3z</dt>') + tuple('<p>first</p> last ' + t for t in TAILS):
        out.append(dict(html=h, cfg=c))
        out.append(dict(html=h, cfg=dict(width=30)))
        out.append(dict(html=h, cfg=dict(width=12, renderers={'p': ['Paragraph', dict(justification='full')]})))
    out += large.cases()
    return out


def make(rng, i, tier):
    hostile = i % 3 == 0
    k = dict(wrapped=rng.choice([0, .1]), unique=not hostile, special=.2, links=rng.choice([0, .3]), images=rng.choice([0, 0, .2]), unknown=rng.choice([0, .5]),
             attrs=.2, depth=rng.choice([0, 1, 2, 2, 3]), children=(1, 3), words=(1, rng.choice([3, 8, 30])), br=.08,
             longword=.02 if hostile else 0, empty=.05, punct=.2, bare=.3)
    if hostile and rng.random() < .2:
        # the same texts again and again
        k.update(vocabulary=rng.choice([['7'], ['a', 'b'], ['0', '1', '01'], ['x.', 'x'], ['-', '*', '>', '1.', '#']]), words=(1, rng.choice([1, 1, 2])))
    if rng.random() < .3:
        k['blocks'] = rng.sample(['p', 'div', 'ul', 'ol', 'blockquote', 'pre', 'h', 'dl', 'inline', 'section'], 3)
    d = gen.Doc(rng, **k)
    nodes = d.document()
    cfg = gen.config(rng, boxes=.5, styles=.4, gophermap=0)
    for p in ('link_placement', 'image_placement'):
        if cfg.get(p) == 'after_block' and rng.random() < .5:
            cfg[p] = 'footer'
    # decorations made of characters that no document contains
    for spec in (cfg.get('renderers') or {}).values():
        if 'capitalized' in spec[1]:
            del spec[1]['capitalized']
        if spec[1].get('spread'):
            del spec[1]['spread']
        if spec[1].get('underlined'):
            spec[1]['underline_char'] = '\u2500'
        if 'border' in spec[1]:
            spec[1]['border'] = [b and '\u2550' * len(b) for b in spec[1]['border']]
    if rng.random() < .5 and not k['images']:
        cfg['extracted_link_renderers'] = {'a': ['ExtractedLink', PLAIN]}
    cfg['width'] = max(cfg.get('width', 67), 30)
    if rng.random() < .1:
        nodes = nodes * 3
    html = gen.serialize(nodes, rng, rng.choice([0, .3, .9]))
    x = rng.random()
    if x < .1:
        # a text that the document ends with, and the parser may still be buffering
        html += rng.choice(['', ' ', '<p>', '<li>', '<div>', '<pre>']) + rng.choice(TAILS)
    elif x < .2:
        # an unfinished document
        html = re.sub('(</[a-z0-9]+>|\\s)+$', '', html)
    return dict(html=html, cfg=cfg)


def squeeze(s, skip):
    return ''.join(c for c in s if not c.isspace() and c not in skip)


def judge(case, obs):
    html, cfg = case['html'], case['cfg']
    out = oracle.text(html, cfg, obs)
    model = ref.render(html, cfg)
    obs.count('elements', len(model.rendered))
    obs.count('entries', len(model.entries))
    depth = max([0] + [_depth(n) for n, _ in model.rendered])
    obs.high('nesting depth', depth)
    if depth >= 3:
        obs.count('nested three deep')
    if any(k == 'Renderer' for _, k in model.rendered):
        obs.count('cases with unknown elements')
    words = ''.join(_texts(model.root)).split()
    obs.nontrivial(len(words) >= 5 and depth >= 2)
    # 1. unique tokens: exactly once, in order (entries repeat the text of links)
    if 'q1z' in html:
        want = TOKEN.findall(' '.join(words))
        tidy = lambda s: re.sub(r'\{\d+\| \|[^}]*\}', '', s)
        readable = not model.entries or cfg.get('extracted_link_renderers')
        # (words glued to a chunk longer than the line are broken up: the second monitor follows those)
        if readable and TOKEN.findall(tidy(model.text)) == want and len(set(want)) == len(want):
            obs.count('words tracked', len(want))
            got = TOKEN.findall(tidy(out))
            if got != want:
                lost = [t for t in want if t not in got]
                extra = sorted(set(t for t in got if got.count(t) > 1))
                return 'tokens lost %s, repeated %s, order kept: %s' % (
                    lost[:5], extra[:5], [t for t in want if t in got] == [t for t in got if t in want])
        # and none is lost, whatever stands between its characters
        letters, place = re.sub('[^a-z0-9]', '', out), 0
        for t in want:
            found = letters.find('q%sz' % t, place)
            if found < 0:
                return 'token %s is lost' % t
            place = found + len(t) + 2
    # 2. nothing but markers, decoration and entries besides the words
    skip = '\u2500\u2550'
    if '&gt;' not in html and '>' not in re.sub('<[^<]*>', '', html):
        skip += '>'
    e, a = squeeze(model.text, skip), squeeze(out, skip)
    if e != a:
        n = next((i for i in range(min(len(e), len(a))) if e[i] != a[i]), min(len(e), len(a)))
        return 'visible characters differ from number %d on: expected %r, got %r' % (n + 1, e[max(0, n - 25):n + 50], a[max(0, n - 25):n + 50])
    # 3. and the words are kept apart
    e, a = [''.join(c for c in t if c not in skip).split() for t in (model.text, out)]
    obs.count('words compared', len(e))
    if e != a:
        n = next((i for i in range(min(len(e), len(a))) if e[i] != a[i]), min(len(e), len(a)))
        return 'words differ from number %d on: expected %r, got %r' % (n + 1, e[n:n + 5], a[n:n + 5])
    return None


def _depth(n):
    d = 0
    while n.parent is not None:
        d += 1
        n = n.parent
    return d


def _texts(n):
    for c in n.children:
        if c.tag is None:
            yield c.text
        else:
            if c.tag not in ref.VOID:
                yield ' '
            yield from _texts(c)
            yield ' '
