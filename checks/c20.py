"""C20 renderer settings follow the class hierarchy"""
import copy
import keyword

from vlib import probe, real

ID = 'C20'
TECHNIQUE = 'runtime monitoring: generated class hierarchies and histories of settings accesses, observed in rendered instances and compared with a model (independent linearization, plain dictionaries)'
LEVEL_NOTE = ('Classes are created, written to and instantiated by real renderings; what every instance, class and settings object shows is compared with a model that linearizes the hierarchy '
              'itself and keeps plain dictionaries. Exploration of seeded hierarchies, values and histories.')
RULE = ('Hierarchies of up to eight classes over the library\'s renderers and plain mixins, with multiple inheritance and diamonds, settings of every value (false ones included), element settings, '
        'late writes to classes and instances; sequences of up to 40 accesses to a settings object. Non-trivial: at least two classes with settings or five accesses.')
COUNT = {'quick': 30000, 'thorough': 500000}
REQUIRED = {'instances': 50000, 'diamonds': 2000, 'overridden by a false value': 8000, 'element settings': 20000, 'class writes': 12000, 'instance writes': 12000, 'accesses': 150000, 'failed accesses': 20000, 'replaced settings': 1000}
ASSUMPTIONS = ['Setting names that are names of dictionary methods are reached as items only.']

BASES = ['Renderer', 'Inline', 'Block', 'Paragraph', 'Header', 'ListItem', 'BlockQuote', 'Pre', 'Em', 'Code', 'Break', 'AnsiEscapeCode', 'DefinitionListItem', 'List', 'Non']
NAMES = ['x', 'y', 'z', '_private', 'colour', 'template', 'capitalized', 'indent', 'line_width', 'justification', 'Upper', 'tag', 'context', 'box', 'name', 'bold', 'a1']
VALUES = [0, 1, '', 'v', None, False, True, [], [1], {}, 2.5, 'w', (), '{}', {'k': 1}, {'j': 2, 'k': 0}, {'k': 3}]


def fixed():
    return [
        dict(kind='classes', classes=[dict(bases=['Renderer'], settings={'x': 1}), dict(bases=[0], settings=None), dict(bases=[0], settings={'x': 0}), dict(bases=[1, 2], settings=None)],
             ops=[['make', 3, None], ['make', 3, {'x': None}], ['make', 3, None], ['make', 1, None], ['set', 1, 'x', 5, 'attr'], ['make', 0, None], ['make', 3, None], ['make', 2, None]]),
        dict(kind='classes', classes=[dict(bases=[], settings={'x': 1}), dict(bases=[0], settings=None), dict(bases=[0], settings={'x': 2}), dict(bases=[1, 2, 'Renderer'], settings=None)], ops=[['make', 3, None]]),
        dict(kind='classes', classes=[dict(bases=['Block'], settings={'y': []}), dict(bases=['Inline'], settings={'y': 0}), dict(bases=[0, 1], settings={}), dict(bases=[1, 0], settings=None)],
             ops=[['make', 2, None], ['make', 3, None], ['write', 'y', 7, 'attr'], ['make', 3, None], ['write', 'q', 7, 'item'], ['make', 2, {'y': False}], ['make', 2, None]]),
        dict(kind='accesses', source='instance', start={'a': 1}, ops=[['getattr', 'a'], ['setitem', 'b', 0], ['getattr', 'b'], ['delattr', 'a'], ['getattr', 'a'], ['getitem', 'a'], ['delattr', 'a'], ['delitem', 'a'], ['setattr', 'a', None], ['getitem', 'a'], ['in', 'a']]),
        dict(kind='accesses', source='replaced', start={'a': 1}, ops=[['setattr', 'b', 1], ['getitem', 'b'], ['setitem', 'c', 2], ['getattr', 'c'], ['len'], ['delattr', 'a'], ['in', 'a']]),
    ]


def settings(rng):
    return {rng.choice(NAMES): rng.choice(VALUES) for _ in range(rng.randint(0, 4))}


def make(rng, i, tier):
    if i % 3 == 0:
        names = rng.sample(NAMES, 4) + ['missing', 'a b', '__dunder', 'é']
        ops = []
        for _ in range(rng.randint(5, 40)):
            op = rng.choice(['getattr', 'getitem', 'setattr', 'setitem', 'setattr', 'setitem', 'delattr', 'delitem', 'in', 'hasattr', 'get', 'len', 'update', 'pop', 'keys', 'getattr default', 'setdefault', 'equal'])
            ops.append([op, rng.choice(names), rng.choice(VALUES)])
        return dict(kind='accesses', source=rng.choice(['instance', 'instance', 'class', 'replaced']), start={n: rng.choice(VALUES) for n in rng.sample(names, 2)}, ops=ops)
    classes = []
    for k in range(rng.randint(1, 8)):
        if rng.random() < .15:
            mixins = [j for j, c in enumerate(classes) if c['mixin']]
            classes.append(dict(bases=rng.sample(mixins, min(len(mixins), rng.choice([0, 1]))), settings=settings(rng) if rng.random() < .7 else None, mixin=True))
            continue
        earlier = list(range(k))
        n = rng.choice([0, 1, 1, 2, 2, 3])
        bases = rng.sample(earlier, min(len(earlier), n))
        bases.sort(reverse=True)
        if not any(not classes[b]['mixin'] for b in bases) or rng.random() < .1:
            bases = bases + [rng.choice(BASES)]
        classes.append(dict(bases=bases, settings=settings(rng) if rng.random() < .7 else None, mixin=False))
    real_ones = [j for j, c in enumerate(classes) if not c['mixin']]
    ops = []
    for _ in range(rng.randint(3, 10)):
        if not real_ones:
            break
        x = rng.random()
        if x < .6:
            ops.append(['make', rng.choice(real_ones), settings(rng) if rng.random() < .5 else None])
        elif x < .8:
            ops.append(['set', rng.choice(real_ones), rng.choice(NAMES), rng.choice(VALUES), rng.choice(['attr', 'item'])])
            if rng.random() < .1:
                ops[-1] = ['replace', ops[-1][1], settings(rng)]
        else:
            ops.append(['write', rng.choice(NAMES), rng.choice(VALUES), rng.choice(['attr', 'item'])])
    return dict(kind='classes', classes=classes, ops=ops)


def linearize(name, parents):
    """C3; raises ValueError"""
    def merge(lists):
        out = []
        while any(lists):
            lists = [l for l in lists if l]
            for l in lists:
                h = l[0]
                if not any(h in o[1:] for o in lists):
                    break
            else:
                raise ValueError
            out.append(h)
            lists = [[x for x in l if x != h] for l in lists]
        return out
    return [name] + merge([linearize(b, parents) for b in parents[name]] + [list(parents[name])])


def judge(case, obs):
    return accesses(case, obs) if case['kind'] == 'accesses' else classes(case, obs)


def instance(cls, passed):
    """an instance of the renderer class, made by a rendering"""
    box = []

    class Seen(Exception):
        pass

    def render(self, content):
        box.append(self)
        return ''
    cls.render = render
    try:
        p = real.load()[0].GopherHTMLParser(renderers={'x-y': cls if passed is None else (cls, passed)})
        with real.quiet():
            p.feed('<x-y>t</x-y>')
            p.close()
    except Exception as e:
        raise real.RealError(e)
    return box[0] if box else None


def same(a, b):
    return list(a.items()) == list(b.items()) or (len(a) == len(b) and all(k in b and type(b[k]) is type(a[k]) and b[k] == a[k] for k in a))


def classes(case, obs):
    # the library's own classes: what they and their bases declare
    parents, own, built = {}, {}, {}
    for n in BASES:
        c = real.cls(n)
        for k in c.__mro__:
            if k.__qualname__ not in parents:
                parents[k.__qualname__] = [b.__qualname__ for b in k.__bases__]
                own[k.__qualname__] = copy.deepcopy(dict(vars(k).get('settings') or {}))
    for k, c in enumerate(case['classes']):
        name = 'G%d' % k
        if any(b not in built for b in c['bases'] if isinstance(b, int)):
            continue
        bases = [built[b] if isinstance(b, int) else real.cls(b) for b in c['bases']] or [object]
        parents[name] = [b.__qualname__ for b in bases]
        try:
            linearize(name, parents)
        except ValueError:
            obs.count('impossible hierarchies')
            continue
        space = {} if c['settings'] is None else {'settings': copy.deepcopy(c['settings'])}
        space['__qualname__'] = name
        meta = type if c.get('mixin') or not c['bases'] else type(real.cls('Renderer'))
        try:
            built[k] = meta(name, tuple(bases), space)
        except TypeError as e:
            raise real.RealError(e)
        own[name] = dict(c['settings'] or {})
    obs.nontrivial(sum(1 for k in built if case['classes'][k]['settings']) >= 2)
    if any(len(case['classes'][k]['bases']) > 1 for k in built):
        obs.count('diamonds')
    last = None
    writes = 0

    def expected(name, passed):
        out = {}
        for k in reversed(linearize(name, parents)):
            for s in own[k]:
                if s in out and not own[k][s]:
                    obs.count('overridden by a false value')
            out.update(own[k])
        out.update(passed or {})
        return out
    for op in case['ops']:
        if op[0] == 'write':
            if last is not None:
                inst, want = last
                want[op[1]] = op[2]
                if op[3] == 'attr':
                    setattr(inst.settings, op[1], copy.deepcopy(op[2]))
                else:
                    inst.settings[op[1]] = copy.deepcopy(op[2])
                obs.count('instance writes')
                if not same(want, inst.settings):
                    return 'after writing %r the settings of the instance are %r, expected %r' % (op[1], dict(inst.settings), want)
            continue
        k = op[1]
        if k not in built:
            continue
        name = 'G%d' % k
        if op[0] == 'replace':
            own[name] = dict(op[2])
            built[k].settings = type(built[k].settings)(copy.deepcopy(op[2]))
            obs.count('class writes')
            continue
        if op[0] == 'set':
            own[name][op[2]] = op[3]
            if op[4] == 'attr':
                setattr(built[k].settings, op[2], copy.deepcopy(op[3]))
            else:
                built[k].settings[op[2]] = copy.deepcopy(op[3])
            obs.count('class writes')
            writes += 1
            continue
        want = expected(name, op[2])
        passed = None if op[2] is None else copy.deepcopy(op[2])
        inst = instance(built[k], passed)
        if passed != op[2]:
            return 'the settings passed for an element were changed to %r' % (passed,)
        obs.count('instances')
        if op[2]:
            obs.count('element settings')
        got = inst.settings
        if not same(want, got):
            d = [s for s in set(want) | set(got) if s not in want or s not in got or want[s] != got[s] or type(want[s]) is not type(got[s])]
            return 'an instance of %s (bases %s) has %s, expected %s' % (name, linearize(name, parents), {s: got.get(s, 'nothing') for s in d}, {s: want.get(s, 'nothing') for s in d})
        last = (inst, want)
    # no class was changed by the others or by instances
    for k, c in built.items():
        if 'settings' in vars(c) and dict(vars(c)['settings']) != own['G%d' % k]:
            return 'the settings of class G%d became %r, it declares %r' % (k, dict(vars(c)['settings']), own['G%d' % k])
    for n in BASES:
        for c in real.cls(n).__mro__:
            if 'settings' in vars(c) and dict(vars(c)['settings']) != own[c.__qualname__]:
                return 'the settings of %s were changed' % c.__qualname__
    return None


def accesses(case, obs):
    cls = type('G', (real.cls('Renderer'),), {'settings': dict(case['start'])})
    model = dict(case['start'])
    inst = instance(cls, None)
    if case['source'] == 'class':
        get = lambda: cls.settings
    else:
        if case['source'] == 'replaced':
            inst.settings = dict(case['start'])
            obs.count('replaced settings')
        get = lambda: inst.settings
    obs.nontrivial(len(case['ops']) >= 5)
    for op in case['ops']:
        kind, name = op[0], op[1] if len(op) > 1 else None
        value = op[2] if len(op) > 2 else None
        want = got = None
        try:
            want = model_op(model, kind, name, value)
        except KeyError:
            want = AttributeError if kind in ('getattr', 'delattr') else KeyError
        try:
            got = real_op(get(), kind, name, value)
        except Exception as e:
            got = type(e)
            if got in (AttributeError, KeyError):
                obs.count('failed accesses')
        obs.count('accesses')
        if got != want or type(got) is not type(want):
            return '%s of %r on %r gives %r, expected %r' % (kind, name, model, got, want)
        if dict(get()) != model or list(get()) != list(model):
            return 'after %s of %r the settings are %r, expected %r' % (kind, name, dict(get()), model)
    return None


def model_op(d, kind, name, value):
    if kind in ('getattr', 'getitem'):
        return d[name]
    if kind in ('setattr', 'setitem'):
        d[name] = value
    elif kind in ('delattr', 'delitem'):
        del d[name]
    elif kind in ('in', 'hasattr'):
        return name in d
    elif kind == 'get':
        return d.get(name, value)
    elif kind == 'getattr default':
        return d.get(name, 'default')
    elif kind == 'len':
        return len(d)
    elif kind == 'update':
        d.update({name: value})
    elif kind == 'pop':
        return d.pop(name)
    elif kind == 'keys':
        return list(d)
    elif kind == 'setdefault':
        return d.setdefault(name, value)
    elif kind == 'equal':
        return True


def real_op(d, kind, name, value):
    if kind == 'getattr':
        return getattr(d, name)
    if kind == 'getitem':
        return d[name]
    if kind == 'setattr':
        setattr(d, name, value)
    elif kind == 'setitem':
        d[name] = value
    elif kind == 'delattr':
        delattr(d, name)
    elif kind == 'delitem':
        del d[name]
    elif kind == 'in':
        return name in d
    elif kind == 'hasattr':
        return hasattr(d, name)
    elif kind == 'get':
        return d.get(name, value)
    elif kind == 'getattr default':
        return getattr(d, name, 'default')
    elif kind == 'len':
        return len(d)
    elif kind == 'update':
        d.update({name: value})
    elif kind == 'pop':
        return d.pop(name)
    elif kind == 'keys':
        return list(d.keys())
    elif kind == 'setdefault':
        return d.setdefault(name, value)
    elif kind == 'equal':
        return d == dict(d)
