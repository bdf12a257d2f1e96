"""C04 parsers do not influence one another or their inputs"""
import hashlib
import importlib
import inspect
import json
import os
import pickle
import random
import subprocess
import sys
import threading
import time

from vlib import gen, oracle, real

ID = 'C04'
TECHNIQUE = ('runtime monitoring: isolation monitor - every rendering in sequences, interleavings and threads of differently configured parsers is compared with the same rendering alone in a '
             'fresh process, and snapshots of inputs and defaults are compared; thread switches are injected at executed lines')
LEVEL_NOTE = ('Goldens come from processes that have rendered nothing else (forks of a process that never renders, and separately started interpreters with different hash seeds). Schedules are '
              'sampled: random sequences and interleavings, and threads with injected switches, whose distinct switch sequences are counted.')
RULE = ('Groups of documents and configurations (boxes, settings, themes, styles, placements, formats), with shared boxes, maps and settings dictionaries, rendered in random order, interleaved piece by '
        'piece, or by up to four threads. Non-trivial: at least two configurations in one history.')
COUNT = {'quick': 600, 'thorough': 12000}
CPU_LIMIT = 120
REQUIRED = {'renderings compared': 5000, 'fresh processes': 1500, 'interleaved parsers': 1000, 'threads': 500, 'thread switches inside the package': 5000, 'inputs snapshot': 1500, 'defaults snapshot': 1500,
            'separate interpreters': 6}
ASSUMPTIONS = ['One parser is used by one thread at a time.']
STYLES = [dict(bold=True, foreground_colour=3), dict(background_colour='#abc', underline=True), dict(foreground_colour='red', normalise=True)]
THEMES = ['autumn', 'monokai', 'iced_gopher']


def config(rng):
    x = rng.random()
    if x < .12:
        return dict()
    if x < .25:
        return dict(theme=rng.choice(THEMES), width=rng.choice([40, 67]))
    c = gen.config(rng, boxes=.6, styles=.6, gophermap=.2)
    if rng.random() < .3:
        c.setdefault('renderers', {})[rng.choice(['em', 'strong', 'span', '.c1', 'b'])] = ['AnsiEscapeCode', rng.choice(STYLES)]
    if rng.random() < .2:
        c.setdefault('renderers', {})[rng.choice(['p', 'li', '.c1', 'em'])] = [None, rng.choice([dict(capitalized=True), dict(margin=[1, 2, 1, 2]), dict(padding=[0, 1, 0, 1])])]
    if rng.random() < .2:
        c['extracted_link_renderers'] = {rng.choice(['a', '.c1']): ['ExtractedLink', dict(max_link_description=rng.choice([2, 30]), margin=[0, 0, 0, rng.randint(0, 3)])]}
    if rng.random() < .1:
        c['renderers'] = dict(c.get('renderers') or {}, **{'': rng.choice(['Em', 'Strong'])})
    return c


def document(rng):
    d = gen.Doc(rng, wrapped=.06, links=.3, images=.3, unknown=.1, attrs=.3, depth=rng.choice([0, 1, 2]), children=(1, 3), words=(1, 6), br=.1, special=.03)
    h = gen.serialize(d.document(), rng, .2)
    if rng.random() < .3:
        h += '<div class="highlight"><pre><span></span><span class="k">def</span> <span class="nf">f</span><span class="p">():</span> <span class="s">&quot;x&quot;</span>\n<span class="c1"># y</span></pre></div>'
    if rng.random() < .15:
        h += rng.choice(['<pre>open', '<ul><li>open', '<p>open <a href="u">x', '<em>'])
    return h


def make(rng, i, tier):
    cfgs = [config(rng) for _ in range(rng.randint(2, 4))]
    docs = [document(rng) for _ in range(rng.randint(2, 3))]
    share = [rng.randrange(len(cfgs)) if rng.random() < .3 else None for _ in cfgs]
    n = rng.randint(4, 8)
    jobs = [[rng.randrange(len(docs)), rng.randrange(len(cfgs))] for _ in range(n)]
    jobs += [rng.choice(jobs) for _ in range(3)]
    return dict(docs=docs, cfgs=cfgs, share=share, jobs=jobs, mode=['sequence', 'interleave', 'threads'][i % 3], seed=rng.getrandbits(32))


def fixed():
    docs = ['<p>a <a href="u" title="t">b</a></p><ul><li>c<ul><li>d</li></ul></li></ul>', '<ol><li>1</li><li>2<p>x</p></li></ol><h1>h</h1><pre>p\n q</pre>', '<blockquote><p>q <img src="i" alt="j"></p></blockquote><p>x <em>y</em></p>']
    cfgs = [dict(), dict(box=dict(width=30, margin=[2, 2, 2, 4]), renderers={'p': ['Paragraph', dict(margin=[1, 3, 1, 3], border=['-', '|', '-', '|'], justification='full')], 'em': ['AnsiEscapeCode', dict(bold=True)],
                                                                             'ol > li': ['OrderedListItem', dict(start_index=5, step=2)], 'h1': ['Header', dict(underlined=True, capitalized=True)]}),
            dict(output_format='gophermap', gopher_host='h', image_placement='footer'), dict(link_placement='after_block', image_placement='after_block', width=40), dict(theme='autumn')]
    jobs = [[d, c] for d in range(3) for c in range(5)]
    out = []
    for m in ('sequence', 'interleave', 'threads'):
        for seed in range(6):
            r = random.Random(seed)
            out.append(dict(docs=docs, cfgs=cfgs, share=[None] * 5, jobs=r.sample(jobs * 2, 30), mode=m, seed=seed))
    out.append(dict(docs=docs, cfgs=cfgs, share=[None] * 5, jobs=jobs, mode='interpreters', seed=0))
    return out


# ------------------------------------------------------------ one rendering

def arguments(cfg):
    cfg = dict(cfg)
    theme = cfg.pop('theme', None)
    kw = real.kwargs(cfg)
    if theme:
        kw['renderers'] = importlib.import_module('gopher_render.code_themes.' + theme).renderers
    return kw


def all_arguments(case):
    """keyword arguments of each configuration; some of them share boxes, maps and settings"""
    kws = [arguments(c) for c in case['cfgs']]
    for k, s in enumerate(case['share']):
        if s is not None and s != k:
            for name in ('box', 'renderers', 'extracted_link_renderers'):
                if name in kws[s]:
                    kws[k][name] = kws[s][name]
    return kws


def plain(html, kw):
    try:
        p = real.load()[0].GopherHTMLParser(**kw)
        with real.quiet():
            p.feed(html)
            p.close()
        return p.parsed
    except Exception as e:
        return 'raised %s: %s' % (type(e).__name__, e)


def isolated(f):
    """the result of f() in a forked child of this process, which itself never renders"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            import signal
            signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
            signal.setitimer(signal.ITIMER_VIRTUAL, 60)
            with os.fdopen(w, 'wb') as out:
                out.write(pickle.dumps(f()))
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as inp:
        data = inp.read()
    _, status = os.waitpid(pid, 0)
    if status or not data:
        raise real.RealError(RuntimeError('the process of the rendering ended with status %d' % status))
    return pickle.loads(data)


# ------------------------------------------------------------ snapshots

def deep(o):
    r = real.load()[1]
    if isinstance(o, dict):
        return [type(o).__name__, [(deep(k), deep(v)) for k, v in o.items()]]
    if isinstance(o, (list, tuple)):
        return [type(o).__name__, [deep(x) for x in o]]
    if isinstance(o, r.Box):
        return ['box', deep({k: v for k, v in vars(o).items()})]
    if isinstance(o, type):
        return ['class', o.__name__]
    return repr(o)


def subclasses(c):
    yield c
    for s in c.__subclasses__():
        yield from subclasses(s)


def defaults():
    g, r = real.load()
    out = {}
    for c in subclasses(r.Renderer):
        out[c.__module__ + '.' + c.__qualname__] = deep(getattr(c, 'settings', None))
    for f in (g.GopherHTMLParser.__init__, r.Box.__init__):
        out[f.__qualname__] = deep({n: p.default for n, p in inspect.signature(f).parameters.items() if p.default is not p.empty})
    for t in THEMES:
        out[t] = deep(importlib.import_module('gopher_render.code_themes.' + t).renderers)
    out['new box'] = deep(r.Box(width=67))
    return out


# ------------------------------------------------------------ histories

def sequence(case, kws, counts):
    return [plain(case['docs'][d], kws[c]) for d, c in case['jobs']]


def interleave(case, kws, counts):
    rng = random.Random(case['seed'])
    results = [None] * len(case['jobs'])
    waiting = list(range(len(case['jobs'])))
    live = {}
    while waiting or live:
        if waiting and (not live or (len(live) < 5 and rng.random() < .4)):
            j = waiting.pop(0)
            d, c = case['jobs'][j]
            try:
                p = real.load()[0].GopherHTMLParser(**kws[c])
            except Exception as e:
                results[j] = 'raised %s: %s' % (type(e).__name__, e)
                continue
            live[j] = [p, case['docs'][d]]
            counts['interleaved parsers'] = counts.get('interleaved parsers', 0) + 1
            continue
        j = rng.choice(list(live))
        p, rest = live[j]
        try:
            with real.quiet():
                if rest:
                    # whole tags only: where the tokenizer may be cut is another property
                    k = rest.find('>', rng.randint(0, max(0, len(rest) - 1))) + 1 or len(rest)
                    p.feed(rest[:k])
                    live[j][1] = rest[k:]
                else:
                    p.close()
                    results[j] = p.parsed
                    del live[j]
        except Exception as e:
            results[j] = 'raised %s: %s' % (type(e).__name__, e)
            del live[j]
    return results


def threads(case, kws, counts):
    n = 2 + case['seed'] % 3
    results = [None] * len(case['jobs'])
    barrier = threading.Barrier(n)
    prefix = os.path.join(os.path.realpath(real.REPO), 'gopher_render') + os.sep
    rngs = {}
    trace = []
    m = sys.monitoring
    TOOL = 4
    mine = {}
    rate = [.0005, .003, .02][case['seed'] // 3 % 3]

    def on_line(code, line):
        ok = mine.get(code.co_filename)
        if ok is None:
            ok = mine[code.co_filename] = os.path.realpath(code.co_filename).startswith(prefix)
        if not ok:
            return m.DISABLE
        me = rngs.get(threading.get_ident())
        if me is None:
            return
        if not trace or trace[-1] != me[0]:
            trace.append(me[0])
        if me[1].random() < rate:
            time.sleep(0)

    def work(t):
        rngs[threading.get_ident()] = (t, random.Random(case['seed'] * 10 + t))
        barrier.wait()
        for j in range(t, len(case['jobs']), n):
            d, c = case['jobs'][j]
            try:
                p = real.load()[0].GopherHTMLParser(**kws[c])
                p.feed(case['docs'][d])
                p.close()
                results[j] = p.parsed
            except Exception as e:
                results[j] = 'raised %s: %s' % (type(e).__name__, e)

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    m.use_tool_id(TOOL, 'vlib')
    m.register_callback(TOOL, m.events.LINE, on_line)
    m.set_events(TOOL, m.events.LINE)
    m.restart_events()
    try:
        with real.quiet():
            ts = [threading.Thread(target=work, args=(t,)) for t in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
    finally:
        m.set_events(TOOL, 0)
        m.free_tool_id(TOOL)
        sys.setswitchinterval(interval)
    counts['threads'] = n
    counts['thread switches inside the package'] = max(0, len(trace) - 1)
    counts['schedule'] = hashlib.blake2b(bytes(trace), digest_size=8).hexdigest()
    return results


PROGRAM = '''
import json, sys
sys.dont_write_bytecode = True
sys.path.insert(0, %r)
from checks import c04
case = json.load(sys.stdin)
d, c = case['jobs'][%d]
json.dump(c04.plain(case['docs'][d], c04.all_arguments(case)[c]), sys.stdout)
'''


def interpreters(case, obs):
    for k in range(0, len(case['jobs']), 2):
        d, c = case['jobs'][k]
        want = isolated(lambda: plain(case['docs'][d], all_arguments(case)[c]))
        env = dict(os.environ, PYTHONHASHSEED=str(k * 7 + 1), VERIF_REPO=real.REPO)
        p = subprocess.run([sys.executable, '-c', PROGRAM % (os.path.dirname(os.path.dirname(os.path.abspath(__file__))), k)], input=json.dumps(case), capture_output=True, text=True, env=env, timeout=120)
        if p.returncode:
            raise RuntimeError(p.stderr)
        obs.count('separate interpreters')
        got = json.loads(p.stdout)
        if got != want:
            return 'a separately started process renders document %d differently: %s' % (d, oracle.first_difference(want, got))
    return None


GOLDEN = {}
SCHEDULES = set()


def golden(case, d, c, obs):
    key = (case['docs'][d], json.dumps([case['cfgs'], case['share'], c], sort_keys=True))
    if key not in GOLDEN:
        if len(GOLDEN) > 500:
            GOLDEN.clear()
        GOLDEN[key] = isolated(lambda: plain(case['docs'][d], all_arguments(case)[c]))
        obs.count('fresh processes')
    return GOLDEN[key]


def setup():
    for t in THEMES:
        importlib.import_module('gopher_render.code_themes.' + t)


def run(case):
    counts = {}
    before_defaults = defaults()
    kws = all_arguments(case)
    before = [deep(kw) for kw in kws]
    results = globals()[case['mode']](case, kws, counts)
    after = [deep(kw) for kw in kws]
    changed = None
    for k, (b, a) in enumerate(zip(before, after)):
        if a != b:
            changed = 'the arguments of configuration %d were modified: %s became %s' % (k, b, a)
    after_defaults = defaults()
    for k in before_defaults:
        if after_defaults.get(k) != before_defaults[k]:
            changed = 'the defaults of %s were modified: %s became %s' % (k, before_defaults[k], after_defaults.get(k))
    counts['inputs snapshot'] = len(kws)
    counts['defaults snapshot'] = len(before_defaults)
    return results, changed, counts


def judge(case, obs):
    if case['mode'] == 'interpreters':
        obs.nontrivial()
        return interpreters(case, obs)
    obs.nontrivial(len(set(c for _, c in case['jobs'])) >= 2)
    results, changed, counts = isolated(lambda: run(case))
    s = counts.pop('schedule', None)
    if s is not None and s not in SCHEDULES:
        SCHEDULES.add(s)
        obs.count('distinct thread schedules (per worker)')
    for k, v in counts.items():
        obs.count(k, v)
    obs.count('histories of kind ' + case['mode'])
    for n, ((d, c), got) in enumerate(zip(case['jobs'], results)):
        want = golden(case, d, c, obs)
        obs.count('renderings compared')
        if got != want:
            return 'rendering %d of the %s (document %d, configuration %d) differs from a fresh process: %s' % (n, case['mode'], d, c, oracle.first_difference(want, got or ''))
    return changed
