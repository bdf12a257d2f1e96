"""C21 page margins and trailing space trimming are exact"""
import re

from checks import c01
from vlib import gen, large, oracle, ref

ID = 'C21'
TECHNIQUE = 'runtime monitoring: metamorphic monitor - the same document rendered with and without optimisation and with and without page margins, compared line by line'
LEVEL_NOTE = ('Each case is rendered up to four times by the real code; the optimised output must be the unoptimised one trimmed, the one with margins must be the one in the remaining width '
              'plus exactly the margins. Exploration of seeded documents and page boxes.')
RULE = ('Documents of every element with trailing white space, empty lines, escape sequences and preformatted text, all placements and formats, page margins of 0 to 6. Non-trivial: at least two lines of output.')
COUNT = {'quick': 15000, 'thorough': 300000}
REQUIRED = {'trimmed lines': 40000, 'optimised pairs': 14000, 'margin pairs': 10000, 'indented lines': 70000, 'gophermaps': 1500, 'menu lines': 2500, 'damaged documents': 1500, 'top and bottom margins': 3000}
ASSUMPTIONS = ['The empty line in front of a gophermap menu may or may not carry the left margin.']


def fixed():
    out = []
    for h in ('', 'a', '<p>a</p>', '<p>a</p><p>b</p>', '<pre>a  \n   \n b </pre>', '<div>x</div>', '<p><a href="u">v</a></p>', '<p>a <br></p>', '<pre></pre>', '<h1>a</h1>', '<ul><li>a<li>b</ul>'):
        for m in ([0, 0, 0, 0], [1, 2, 3, 4], [3, 0, 0, 0], [0, 0, 2, 0], [0, 0, 0, 5], [0, 5, 0, 0]):
            for c in (dict(), dict(output_format='gophermap', gopher_host='h'), dict(link_placement='after_block')):
                out.append(dict(html=h, cfg=c, width=40, margin=m))
    out += [dict(html=h, cfg={}, width=120, margin=m) for m in ([20, 25, 15, 33], [40, 0, 0, 0], [0, 0, 50, 0], [0, 0, 0, 60], [0, 70, 0, 0]) for h in ('<p>a</p>', '<p>%s</p><pre>x  \n  y</pre>' % large.text(60), '<p>x <a href="u">v</a></p>')]
    return out


def make(rng, i, tier):
    if rng.random() < .15:
        html = c01.damaged(rng)
        kind = 'damaged'
    else:
        d = gen.Doc(rng, wrapped=.06, links=.2, images=.2, unknown=.05, special=.05, depth=rng.choice([0, 1, 2]), children=(1, 3), words=(1, rng.choice([3, 12])), br=.1, empty=.08,
                    blocks=['p', 'div', 'ul', 'ol', 'blockquote', 'pre', 'h', 'dl', 'inline'])
        html = gen.serialize(d.document(), rng, rng.choice([0, .5]))
        kind = 'document'
        if rng.random() < .1:
            html += '<pre>a   \n\n   \n  b \n</pre>'
    cfg = gen.config(rng, boxes=.3, styles=.3, gophermap=.25)
    for k in ('box', 'width', 'optimise'):
        cfg.pop(k, None)
    if cfg.get('output_format') == 'gophermap':
        cfg['link_placement'] = 'footer'
        if cfg['image_placement'] == 'after_block':
            cfg['image_placement'] = 'footer'
    elif kind == 'document' and rng.random() < .1:
        # lines that begin or end with other white space
        html += '<%s>%s</pre>' % ('pre', '\n'.join(rng.choice(['', '\t', ' \t', '\t\t', '\t ', '\u00a0', '\x0b', '\u2003']) + rng.choice(['', 'a', 'a b', 'a\tb']) + rng.choice(['', '', '\t', ' ', '\u00a0']) for _ in range(rng.randint(1, 5))))
    if rng.random() < .2:
        cfg.setdefault('renderers', {})['pre'] = ['Pre', dict(indent=rng.choice([0, 0, 1, 4]), margin=[rng.choice([0, 1]), 0, rng.choice([0, 1]), rng.choice([0, 0, 2])])]
    if rng.random() < .2:
        cfg.setdefault('renderers', {})['em'] = ['AnsiEscapeCode', dict(underline=True)]
    return dict(html=html, cfg=cfg, width=rng.choice([30, 50, 67]), margin=[rng.choice([0, 0, 1, 2, 6]) for _ in range(4)], kind=kind)


def judge(case, obs):
    html, cfg, w, m = case['html'], case['cfg'], case['width'], case['margin']
    box = dict(width=w, margin=m)
    plain = oracle.text(html, dict(cfg, box=box, optimise=False), obs)
    trimmed = oracle.text(html, dict(cfg, box=box, optimise=True), obs)
    obs.nontrivial(plain.count('\n') >= 1)
    lines = plain.split('\n')
    obs.count('optimised pairs')
    obs.count('trimmed lines', sum(1 for l in lines if l != l.rstrip()))
    if case.get('kind') == 'damaged':
        obs.count('damaged documents')
    want = '\n'.join(l.rstrip() for l in lines)
    if trimmed != want:
        return 'the optimised output is not the trimmed output: %s' % oracle.first_difference(want, trimmed)
    gopher = cfg.get('output_format') == 'gophermap'
    if gopher and '\t' in re.sub(r'[^\n]*\t[^\t\n]*\t[^\t\n]*\t[^\t\n]*', '', plain):
        return None
    inner = dict(cfg, box=dict(width=w - m[1] - m[3], margin=[0, 0, 0, 0]), optimise=False)
    bare = oracle.text(html, inner, obs)
    if case.get('kind') == 'document' and 'em' not in (cfg.get('renderers') or {}):
        # what the margins are added to is itself as it should be
        model = ref.render(html, inner)
        if not model.clamped:
            obs.count('content compared with the model')
            message = oracle.first_difference(ref.rstrip_lines(model.text), ref.rstrip_lines(bare))
            if message:
                return 'without page margins: ' + message
    obs.count('margin pairs')
    if m[0] and m[2]:
        obs.count('top and bottom margins')
    out = []
    for l in ref.lines_of(bare, True):
        if gopher and l.count('\t') == 3:
            obs.count('menu lines')
            out.append(l)
        else:
            obs.count('indented lines')
            out.append(' ' * m[3] + l)
    want = '\n' * m[0] + ''.join(out) + '\n' * m[2]
    if gopher:
        obs.count('gophermaps')
        want, plain = ['\n'.join(l.rstrip() for l in s.split('\n')) for s in (want, plain)]
    if want != plain:
        return 'margins %s: %s' % (m, oracle.first_difference(want, plain))
    return None
