"""C03 output does not depend on how the input is fed; reset starts afresh"""
from checks import c01
from vlib import gen, oracle, real, ref

ID = 'C03'
TECHNIQUE = 'runtime monitoring: metamorphic monitor over feed/close/reset histories of one parser object, compared with one-piece rendering by a fresh parser'
LEVEL_NOTE = ('Real runs are compared with real runs: one piece against many pieces (also one character at a time), fresh parser against parser with a history. '
              'Exploration of seeded documents, splittings and histories; splittings whose tokens already differ in the standard tokenizer are left out and counted.')
RULE = ('Documents with links, images, preformatted text, entities, comments and unclosed elements; splittings at every kind of place and at every character; histories of up to five '
        'earlier feeds, closes and resets that stop in the middle of constructs. Non-trivial: at least two pieces or an earlier history.')
COUNT = {'quick': 7000, 'thorough': 120000}
REQUIRED = {'splittings compared': 15000, 'pieces fed': 200000, 'histories': 5000, 'resets': 6000, 'resets in the middle': 2500, 'character by character': 1500, 'histories with links': 1500,
            'histories with open pre': 400, 'closed again': 1000, 'continued after a close': 600}
ASSUMPTIONS = ['The standard tokenizer itself treats a few unfinished constructs differently when they are fed in pieces; such splittings are not judged.']

LEFT_OPEN = ['<pre>', '<pre>  a\n', '<ul><li>x', '<p>some <a href="u">t', '<a href="v', '<!-- x', '&am', '<', 'tail text ', '<em><strong>', '</', '<p', '<script>a', '<textarea>', '<a href="w">x</a><img src="i">', '<blockquote><p>q', '<img src="z" alt="y">', '</p></div>', '<h1>', '<![CDATA[', '<?', '<ol><li>1<li>2', '<dl><dt>']


def fixed():
    out = []
    docs = ['<p>a &amp; b&copy;c &#65; d</p><pre>  x\n\n y</pre><p>e <a href="u" title="t t">f</a> g<!-- c -->h</p>', '<pre>\n a\n  b &lt; c</pre>tail', '<ul>\n <li>a\n<li>b <img src="x" alt="y z">\n</ul>',
            '<p>a<br/>b <br />  c</p>  text  <p>d', 'a  \n b\t<em> c </em>', '<script>a < b && c</script><p>x</p>', '<p title="a > b">x</p><!DOCTYPE x><?pi?>y', '<p>a\r\nb\r\n\r\nc</p>', '&lt;p&gt; &amp;amp; &notit; &', 'x < y <z',
            '<a href="a">1</a><a href="b">2</a>', '<p><a href="a"><img src="b"></a></p>']
    for d in docs:
        for c in (dict(), dict(link_placement='after_block', image_placement='footer'), dict(link_placement='inline'), dict(output_format='gophermap', gopher_host='h', image_placement='footer')):
            out.append(dict(html=d, cfg=c, splits=[list(range(1, len(d)))] + [[k] for k in range(1, len(d))], history=[]))
            out.extend(dict(html=d, cfg=c, splits=[], history=[], before=b) for b in docs)
            for h in LEFT_OPEN:
                out.append(dict(html=d, cfg=c, splits=[], history=[['feed', d], ['feed', h], ['reset']]))
            for hist in ([['close'], ['reset']], [['feed', d], ['close'], ['reset']], [['reset'], ['reset']], [['feed', d], ['close'], ['reset'], ['feed', '<pre>'], ['reset']], [['feed', d], ['reset'], ['feed', d], ['close'], ['reset']]):
                out.append(dict(html=d, cfg=c, splits=[], history=hist))
    return out


def document(rng):
    if rng.random() < .2:
        return c01.damaged(rng)
    d = gen.Doc(rng, wrapped=.06, links=.4, images=.4, unknown=.05, special=.1, depth=rng.choice([0, 1, 2]), children=(1, 3), words=(1, 6), attrs=.2, br=.1,
                blocks=['p', 'div', 'ul', 'ol', 'blockquote', 'pre', 'pre', 'h', 'dl', 'inline'])
    s = gen.serialize(d.document(), rng, rng.choice([0, .3, .9]))
    if rng.random() < .3 and s:
        k = rng.randrange(len(s))
        s = s[:k] + rng.choice(['<!-- c -->', '<!-- a > b -->', '<!DOCTYPE x>', '<?x?>', '&amp;', '&#x41;', '&nbsp;', '\r\n', '<br/>']) + s[k:]
    if rng.random() < .15:
        s = s[:rng.randint(0, len(s))]
    return s


def make(rng, i, tier):
    html = document(rng)
    cfg = gen.config(rng, boxes=.2, styles=.1, gophermap=.25)
    n = len(html)
    splits = []
    for _ in range(3):
        if n > 1:
            splits.append(sorted(rng.sample(range(1, n), min(n - 1, rng.choice([1, 1, 2, 5, 20])))))
    if n and rng.random() < .3:
        splits.append(list(range(1, n)))
    if n and rng.random() < .3:
        # around every tag and entity
        at = set()
        for k, c in enumerate(html):
            if c in '<>&;':
                at.add(k + rng.choice([0, 1]))
        splits.append(sorted(a for a in at if 0 < a < n))
    history = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        if rng.random() < .85:
            d = document(rng) if rng.random() < .8 else html
            if rng.random() < .4:
                d = d[:rng.randint(0, len(d))]
            history.append(['feed', d])
            if rng.random() < .4:
                history.append(['feed', rng.choice(LEFT_OPEN)])
        if rng.random() < .4:
            history.append(['close'])
        history.append(['reset'])
    before = None
    if rng.random() < .35:
        before = document(rng)
        if rng.random() < .5:
            before += rng.choice(['<p>x</p>', '<hr>', '<pre>y</pre>', '<a href="/z">z</a>'])
    return dict(html=html, cfg=cfg, splits=splits, history=history, again=rng.choice([0, 0, 0, 2, 3]), before=before)


def complete(html):
    """Whether a document ends in a tag, with no element left open"""
    stack = []
    events = ref.events(html)
    for e in events:
        if e[0] == 'start' and e[1] not in ref.VOID:
            stack.append(e[1])
        elif e[0] == 'end' and stack and stack[-1] == e[1]:
            stack.pop()
    return not stack and not (events and events[-1][0] == 'data')


def tokens(pieces):
    p = ref._Events()
    for x in pieces:
        p.feed(x)
    p.close()
    out = []
    for e in p.events:
        if e[0] == 'data' and out and out[-1][0] == 'data':
            out[-1] = ('data', out[-1][1] + e[1])
        else:
            out.append(e)
    return out


def cut(s, at):
    at = [0] + list(at) + [len(s)]
    return [s[a:b] for a, b in zip(at, at[1:])]


def judge(case, obs):
    html, cfg = case['html'], case['cfg']
    whole = oracle.text(html, cfg, obs)
    ref_tokens = None
    obs.nontrivial(bool(case['splits'] or case['history']))
    for at in case['splits']:
        pieces = cut(html, at)
        ref_tokens = ref_tokens or tokens([html])
        if tokens(pieces) != ref_tokens:
            obs.count('splittings the tokenizer reads differently')
            continue
        out = oracle.text(html, cfg, obs, pieces)
        obs.count('splittings compared')
        obs.count('pieces fed', len(pieces))
        if len(pieces) == len(html) > 1:
            obs.count('character by character')
        if out != whole:
            return 'fed in %d pieces (%r): %s' % (len(pieces), pieces[:6], oracle.first_difference(whole, out))
    if case.get('again'):
        # closing again renders the same document again
        p = real.parser(cfg)
        try:
            with real.quiet():
                p.feed(html)
                for k in range(case['again']):
                    p.close()
                    obs.count('closed again', k > 0)
                    if p.parsed != whole:
                        return 'closed %d times: %s' % (k + 1, oracle.first_difference(whole, p.parsed))
        except Exception as e:
            raise real.RealError(e)
    before = case.get('before')
    if before is not None and complete(before) and tokens([before]) + tokens([html]) == tokens([before + html]):
        # closing a complete document is no end: what is fed later continues it
        both = oracle.text(before + html, cfg, obs)
        p = real.parser(cfg)
        try:
            with real.quiet():
                p.feed(before)
                p.close()
                p.feed(html)
                p.close()
        except Exception as e:
            raise real.RealError(e)
        obs.count('continued after a close')
        if p.parsed != both:
            return 'fed and closed in two parts: %s' % oracle.first_difference(both, p.parsed)
    if case['history']:
        obs.count('histories')
        p = real.parser(cfg)
        try:
            with real.quiet():
                previous = None
                for op in case['history']:
                    if op[0] == 'feed':
                        p.feed(op[1])
                        if '<a ' in op[1] or '<img' in op[1]:
                            obs.count('histories with links')
                        if '<pre' in op[1] and '</pre' not in op[1]:
                            obs.count('histories with open pre')
                    elif op[0] == 'close':
                        p.close()
                    else:
                        p.reset()
                        obs.count('resets')
                        if previous == 'feed':
                            obs.count('resets in the middle')
                        if p.parsed != real.parser(cfg).parsed:
                            return 'after a reset the parser still holds the result %r' % p.parsed[:200]
                    previous = op[0]
                p.feed(html)
                p.close()
        except Exception as e:
            raise real.RealError(e)
        if p.parsed != whole:
            return 'after the history %r: %s' % (case['history'], oracle.first_difference(whole, p.parsed))
    return None
