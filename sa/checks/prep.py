"""C20: preprocessors do not change their arguments.  C24: pipelines.
C28: transformations can be undone.  C30: one-way conversions."""
import itertools
from .. import num as N
from ..values import *
from ..harness import *

RULE20 = 'transforming and undoing return new instances and leave their arguments as they were'
RULE28 = 'undoing a transformation gives back the instance'


def P(I, name, *a, **k):
    return I.call(I.get(PK + 'preprocessor', name), list(a), k)


X = 'num'
FLAT = {'a': 'v', '_h': 'w', 'n': 0, 'x': X, 'b': True, 'e': ''}
RELS = {'a': 'v', ('r', 'p', 'q'): 'yes', ('s', ('t', 'p', 'u'), '?z'): X, ('_m', 'p', 'q', 'w'): 0}
NEST = {'a': 'v', 'o': {'k': 'v', '_k': X, 'i': {'j': 0, '_j': 'w'}}, '?p': {'c': 'v', '?q': {'d': X, '_d': 'h'}}}
OBJS = {'a': 'v', '?p': {'c': 'v', '?q': {'d': X, '_d': 'h', '?w': {'y': 'u'}}}, '?r': {'c': 'v', 'i': {'z': 'u'}},
        ('rel', '?p', ('?q', '?p')): 'yes', ('rel3', '?r', ('at', ('?w', ('?q', '?p')), 'left'), 'k'): X}
OBJS2 = {'?a': {'?b': {'u': 'v'}, '?c': {'u': 'v'}}, '?d': {'_u': 'v'}}
LISTS = {'a': 'v', 'l': ['p', 'q', 'p'], 'o': {'m': ['u', {'k': 'v', 'i': ['s']}], 'j': X}, 'k': [X, 0]}
LIST1 = {'l': ['p'], 'k': [{'a': 'v', '_h': 'w'}, {'a': 'v'}], '?p': {'m': ['p', 'q']}}
STRS = {'a': 'v', 'l': ['c', 'b', 'a'], 'o': {'m': ['u', 'v'], 'i': {'n': ['u']}, 'j': X}, ('has', 'x', 'y'): 'yes'}
SREL = {'a': 'v', '(r p q)': 'yes', '(s (t p u) z)': X, '(f (g (h i)))': 0, '(_m p)': 'w', '(d (e p) (e q))': 'x'}
SNUM = {'(at p 12.5 (div w 3))': 'yes', '(n 4)': 'v'}
SPACE = {'l': [' p', 'q ', 'r s', ' ', '(u)', 'P', 'p'], 'o': {'m': ['b\t', 'a', '-1', '0', '?x']}}
LONG = {'l': list('lakbjcidhegf'), 'o': {'m': ['b', 'a']}}
MIXL = {'l': [X, True, 'p', 0, {'k': 'v', 'o': {'j': X}}, True, 'p', 2.5, None, '', {}], 'm': [0], '_h': 'p'}
LOBJ = {'?p': {'m': [{'?q': {'c': 'v'}}, 's']}, 'l': [{'?q': {'c': 'w'}}], ('near', '?p', '?q'): 'yes'}
HOLD = {'oo': {'?a': {'u': 'v'}, 'xx': {'?c': {'i': {'y': X, '_h': 'w'}}}, '_k': 'v'}, '?p': {'k': {'?q': {'i': {'?rr': {'z': 'v'}}}}, 'm': {'n': {'?e': {'_z': X}}}}}
DEEPREL = {'a': 'v', ('p', ('q', '?zz')): 'yes', ('p2', ('q2', ('s', '?yy'))): X, '?t': {'c': 'v'}}
ATOM = {'?p': 'v', '?q': X, 'a': 'v', ('near', '?p', '?q'): 'yes'}

MAKE = {
    'Tuplizer': (lambda I: P(I, 'Tuplizer'), [FLAT, SREL, dict(SREL, o={'k': 'v'})]),
    'NameStandardizer': (lambda I: P(I, 'NameStandardizer'), [FLAT, RELS, NEST, OBJS, OBJS2, LISTS, LOBJ, ATOM, HOLD, DEEPREL]),
    'Flattener': (lambda I: P(I, 'Flattener'), [FLAT, NEST, OBJS2, HOLD, {('r', 'p', 'q'): 'v', 'o': {'k': {'l': {'m': X}}}},
                                                dict(RELS, o={'k': 'v', '_h': {'z': 'w'}})]),
    'ExtractListElements': (lambda I: P(I, 'ExtractListElements'), [FLAT, NEST, LISTS, LIST1, LONG, MIXL, SPACE]),
    'ListsToRelations': (lambda I: P(I, 'ListsToRelations'), [FLAT, NEST, STRS, LONG, SPACE, {'l': ['only'], 'm': ['x', 'y']}]),
    'ListProcessor': (lambda I: P(I, 'ListProcessor'), [FLAT, NEST, LISTS, LIST1, STRS, LONG, MIXL, SPACE]),
    'SubComponentProcessor': (lambda I: P(I, 'Pipeline', P(I, 'Flattener'), P(I, 'SubComponentProcessor')),
                              [FLAT, OBJS2, HOLD, {'a': 'v', '?p': {'c': 'v', '?q': {'d': X, '_d': 'h', '?w': {'y': 'u'}}},
                                             '?r': {'c': 'v', 'i': {'z': 'u'}}}]),
    'standard pipeline': (lambda I: P(I, 'Pipeline', P(I, 'NameStandardizer'), P(I, 'Flattener'),
                                      P(I, 'SubComponentProcessor')), [FLAT, RELS, OBJS, OBJS2, HOLD]),
}
TEXT = {'a': 'v', '_h': 'w', 'o': {'b': 'v', 'i': {'c': 'w'}, 'e': {}}, ('r', 'p', 'q'): 'yes'}
ONEWAY = {
    'ObjectVariablizer': [((), NEST), (('o',), NEST), ((), FLAT), ((), RELS), ((), {}), ((), LISTS), (('zz',), NEST), ((), TEXT)],
    'NumericToNominal': [((), {'x': 12.5, 'y': 9, 'z': 'top', 'o': {'x': 3, 'w': 'v'}}),
                         (('y',), {'x': 12.5, 'y': 9, 'z': 'top', 'o': {'y': 3, 'x': 4}}),
                         ((), {}), ((), TEXT), ((), FLAT), ((), NEST), ((), RELS), ((), LISTS), (('zz',), NEST), (('j',), NEST)],
    'NominalToNumeric': [((), {'a': '123', 'b': '1.5'}), (('drop',), {'a': '1', 'c': 'bad'}),
                         (('zero',), {'a': '1', 'c': 'bad'}),
                         (('break', 'a'), {'a': '1', 'c': 'bad', 'o': {'a': '2', 'c': 'bad'}}),
                         ((), {}), (('drop',), TEXT), (('zero',), TEXT), (('break', 'zz'), TEXT), (('drop',), NEST), (('zero',), RELS),
                         ((), {'n': 1, 'o': {'m': 0, 'i': {'x': X}}}), (('break', 'zz'), LISTS)],
    'Sanitizer': [(('trestle',), {'a': 'v', 1: 'w', ('r', 2, 'q'): 'v', 'o': {2: 'v', 'k': 3}}),
                  (('cobweb',), {'a': 'v', 1: 'w', ('r', 2, 'q'): 'v', 'k': 3}),
                  (('cobweb3',), {'a': 'v', 'l': ['p', 'q']}), (('trestle',), {}), (('trestle',), TEXT), (('cobweb',), FLAT),
                  (('trestle',), NEST), (('trestle',), RELS), (('cobweb3',), {}), (('cobweb3',), FLAT)],
}


def inst(I, d, pre='i'):
    if isinstance(d, dict):
        return mkdict(I, {k: inst(I, v, '%s.%s' % (pre, k)) for k, v in d.items()})
    if isinstance(d, list):
        return PyList(I, [inst(I, v, '%s.%d' % (pre, i)) for i, v in enumerate(d)])
    if d == X and isinstance(d, str):
        return N.atom(pre)
    if isinstance(d, float):
        return N.const(d)
    return d


def shuffled(d, k):
    """The same instance with its attributes in another order."""
    it = list(d.items())
    if k == 1:
        it.reverse()
    elif k == 2:
        it = it[1:] + it[:1]
    return {a: shuffled(v, k) if isinstance(v, dict) else v for a, v in it}


def ordered(I, v):
    """Deep value with the order of attributes."""
    if isinstance(v, PyDict):
        return ('d',) + tuple((deep(I, k), ordered(I, I.dget(v, k))) for k, _ in list(v.d.values()))
    if isinstance(v, PyList):
        I.full(v)
        return ('l',) + tuple(ordered(I, x) for x in v._items)
    return deep(I, v)


def reporter(ctx, rule, label, fn):
    def ok(I, v, r):
        if v is None:
            ctx.ok()
        else:
            ctx.fail(fn, rule, '%s: %s' % (label, v), {'choices': trace_of(r), 'function': fn})

    def bad(I, v, r):
        ctx.fail(v.fields.get('__where__', '?'), rule, '%s: raises %s(%s)' % (label, v.cls.name, desc(
            v.fields.get('args', ()))), {'choices': trace_of(r), 'function': fn})
    return ok, bad


def call(I, o, m, *a):
    return I.call(I.getattr_(o, m), list(a), {})


# these hand sub-objects they have nothing to do with on as they are
PASSES = ('Tuplizer', 'ObjectVariablizer')


def containers(I, v):
    """The sub-objects of an instance, itself included."""
    out = [v]
    for k, _ in list(v.d.values()):
        x = I.dget(v, k)
        if isinstance(x, PyDict):
            out += containers(I, x)
    return out


def scen20(ctx, prog, name, make, d, k):
    label = '%s' % name

    def run(I):
        p = make(I)
        x = inst(I, shuffled(d, k))
        x0 = ordered(I, x)
        batch = I.choose(2, 'batch')
        if batch:
            l = PyList(I, [x])
            rl = call(I, p, 'batch_transform', l)
            if l._items != [x] or rl is l:
                return 'the list passed to batch_transform is changed'
            if not isinstance(rl, PyList) or len(rl._items) != 1:
                return 'batch_transform of one instance returns %r' % (rl,)
            t = rl._items[0]
        else:
            t = call(I, p, 'transform', x)
        if t is x:
            return 'transform returns its argument'
        if not isinstance(t, PyDict):
            return 'transform returns %r' % (t,)
        if ordered(I, x) != x0:
            return 'transform changes its argument'
        I.dset(t, '#extra', 'z', raw=True)
        if ordered(I, x) != x0:
            return 'changing the result of transform changes its argument'
        I.ddel(t, '#extra')
        own = containers(I, x)
        if name not in PASSES and any(c is o for c in containers(I, t) for o in own):
            return 'the result of transform shares a sub-object with its argument: changing one changes the other'
        t0 = ordered(I, t)
        if batch:
            l = PyList(I, [t])
            u = call(I, p, 'batch_undo', l)
            if l._items != [t] or not isinstance(u, PyList) or len(u._items) != 1:
                return 'batch_undo returns %r' % (u,)
            u = u._items[0]
        else:
            u = call(I, p, 'undo_transform', t)
        if u is t:
            return 'undo_transform returns its argument'
        if not isinstance(u, PyDict):
            return 'undo_transform returns %r' % (u,)
        if ordered(I, t) != t0:
            return 'undo_transform changes its argument'
        if ordered(I, x) != x0:
            return 'undo_transform changes the instance that was transformed'
        # undoing again gives the same
        u2 = call(I, p, 'undo_transform', t)
        if deep(I, u2) != deep(I, u):
            return 'undoing a second time gives another result'
        I.dset(u, '#extra', 'z', raw=True)
        if ordered(I, t) != t0:
            return 'changing the result of undo_transform changes its argument'
        return None
    ok, bad = reporter(ctx, RULE20, label, name)
    explore_into(ctx, prog, run, label, ok, bad)


def all_cases():
    for name, (make, ds) in MAKE.items():
        for i, d in enumerate(ds):
            yield name, i, make, d
    for name, cs in ONEWAY.items():
        for i, (a, d) in enumerate(cs):
            yield name, i, (lambda I, name=name, a=a: P(I, name, *a)), d


def check_nd(ctx, prog):
    from ..par import run_tasks
    ctx.rule('arguments of every transform/undo/batch call compared (with attribute order) before and after on every path, and after '
             'changing the result')
    T = []
    for name, i, make, d in all_cases():
        for k in range(3):
            T.append(('%s %d %d' % (name, i, k), lambda c, a=(name, make, d, k): scen20(c, prog, *a)))
    run_tasks(ctx, T)


# --------------------------------------------------------------------- C24
RULE24 = 'a pipeline applies its steps in order and undoes them in reverse'


# steps of a pipeline: distinct ones, the same object again, pipelines inside pipelines
PIPES = [(), (0,), (0, 1), (0, 1, 2), (0, 1, 2, 3), (0, 0), (0, 1, 0), (0, 1, 1, 0), ((0, 1), 2), (0, (1, 2)), ((0,), (1, 0)), ((), 0),
         (0, (1, (2, 0)), 3)]


def flat_steps(sp):
    out = []
    for x in sp:
        out += flat_steps(x) if isinstance(x, tuple) else [x]
    return out


def scen24(ctx, prog, spec):
    label = 'pipeline of the steps %s' % (spec,)
    seq = flat_steps(spec)
    n = len(seq)

    def run(I):
        log = []
        B = I.get(PK + 'preprocessor', 'Preprocessor')
        steps = []
        for i in range(1 + max(seq or [0])):
            s = PyObj(I, B)
            s.tag = 'step%d' % i
            steps.append(s)

        full = I.choose(3, 'empty results')

        def build(sp):
            return P(I, 'Pipeline', *[build(x) if isinstance(x, tuple) else steps[x] for x in sp])

        def rec(kind):
            def f(I, fn, args, kw, node):
                s = [i for i, x in enumerate(steps) if x is args[0]]
                if not s:
                    return NotImplemented
                x = args[1] if len(args) > 1 else kw.get('instance')
                r = mkdict(I, {'%s%d' % (kind, s[0]): 'x%d' % len(log)} if full == 0 or (full == 1 and s[0]) else {})
                log.append((kind, s[0], x, r))
                return r
            return f
        I.intercepts[PK + 'preprocessor.Preprocessor.transform'] = rec('t')
        I.intercepts[PK + 'preprocessor.Preprocessor.undo_transform'] = rec('u')
        p = build(spec)
        what = I.choose(5 if n < 4 else 2, 'instances')
        one = lambda: mkdict(I, {'a': 'v'})
        xs = {0: lambda: [one()], 1: lambda: [mkdict(I, {'b': 'z', 'c': 'v'}), one(), mkdict(I, {}), one()],
              2: lambda: [mkdict(I, {})], 3: lambda: [], 4: lambda: [one()] * 3}[what]()
        nb = len(xs)
        batch = what in (1, 3, 4)

        def follow(xs, got, part, kind, order, name):
            if len(got) != nb:
                return '%d %s for %d instances' % (len(got), name, nb)
            for j in range(nb):
                cur = xs[j]
                for i in order:
                    e = [e for e in part if e[0] == kind and e[1] == i and e[2] is cur]
                    if what == 4 and e and e[0][2] is xs[0] and len(e) == nb:
                        # the same instance again: each time for itself
                        e = [e[j]]
                    if len(e) != 1:
                        return 'step %d is not applied once to the result of the step before it (%s)' % (i, name)
                    cur = e[0][3]
                if got[j] is not cur and not (n == 0 and deep(I, got[j]) == deep(I, cur)):
                    return 'the %s is not that of the last step' % name
            if len(part) != n * nb:
                return '%d calls for %d steps (%s)' % (len(part), n * nb, name)
            return None
        t = [x for x, _ in I.iterate(call(I, p, 'batch_transform', PyList(I, xs)))] if batch else [call(I, p, 'transform', xs[0])]
        m = len(log)
        e = follow(xs, t, log[:m], 't', seq, 'result')
        if e:
            return e
        u = [x for x, _ in I.iterate(call(I, p, 'batch_undo', PyList(I, t)))] if batch else [call(I, p, 'undo_transform', t[0])]
        return follow(t, u, log[m:], 'u', seq[::-1], 'undone result')
    ok, bad = reporter(ctx, RULE24, label, 'Pipeline')
    explore_into(ctx, prog, run, label, ok, bad)


def check_pipeline(ctx, prog):
    from ..par import run_tasks
    ctx.rule('data flow through recorded steps: step i receives the result of step i-1, undo the result of step i+1')
    run_tasks(ctx, [('steps %s' % (n,), lambda c, n=n: scen24(c, prog, n)) for n in PIPES])


# --------------------------------------------------------------------- C28
def flat_ok(I, t):
    for k, _ in list(t.d.values()):
        if isinstance(I.dget(t, k), PyDict):
            return 'the flattened instance still has the sub-object %r' % (k,)
    return None


def no_lists(I, v):
    for k, _ in list(v.d.values()):
        x = I.dget(v, k)
        if isinstance(x, PyList):
            return 'the list %r is still there' % (k,)
        if isinstance(x, PyDict):
            m = no_lists(I, x)
            if m:
                return m
    return None


def objects(d, out=None):
    """Names of objects in an instance (harness form)."""
    out = set() if out is None else out
    for k, v in d.items():
        names(k, out)
        if isinstance(v, dict):
            objects(v, out)
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    objects(x, out)
    return out


def names(k, out):
    if isinstance(k, tuple):
        for x in k:
            names(x, out)
    elif isinstance(k, str) and k[:1] == '?':
        out.add(k)


def obj_names(I, v, out=None):
    out = set() if out is None else out
    for k, _ in list(v.d.values()):
        names(k, out)
        x = I.dget(v, k)
        if isinstance(x, PyDict):
            obj_names(I, x, out)
        elif isinstance(x, PyList):
            for y in x._items:
                if isinstance(y, PyDict):
                    obj_names(I, y, out)
    return out


def nested_pairs(k):
    """Does an attribute path still lead through two objects?"""
    if not isinstance(k, tuple):
        return False
    if len(k) == 2 and isinstance(k[0], str) and k[0][:1] == '?':
        return True
    return any(nested_pairs(x) for x in k)


def scen28(ctx, prog, name, make, d, k):
    label = name

    def run(I):
        p = make(I)
        x = inst(I, shuffled(d, k))
        x0 = deep(I, x)
        if I.choose(2, 'used before'):
            o = call(I, p, 'transform', inst(I, {'?zz': {'c': 'v', 'q': 'w'}, 'a': 'w'}))
            call(I, p, 'undo_transform', o)
        t = call(I, p, 'transform', x)
        if not isinstance(t, PyDict):
            return 'transform returns %r' % (t,)
        if name in ('Flattener', 'SubComponentProcessor', 'standard pipeline'):
            m = flat_ok(I, t)
            if m:
                return m
        if name == 'ListProcessor' or name == 'ListsToRelations':
            m = no_lists(I, t)
            if m:
                return m
        if name in ('NameStandardizer', 'standard pipeline'):
            n0, n1 = objects(d), obj_names(I, t)
            if len(n0) != len(n1):
                return '%d objects have %d names after renaming' % (len(n0), len(n1))
            if n0 & n1:
                return 'objects %s keep their names' % sorted(n0 & n1)
            t2 = call(I, make(I), 'transform', inst(I, d))
            if obj_names(I, t2) & n1:
                return 'objects of two instances share the names %s' % sorted(obj_names(I, t2) & n1)
        if name in ('SubComponentProcessor', 'standard pipeline'):
            for a, _ in list(t.d.values()):
                if nested_pairs(a):
                    return 'the object in %r is not moved to the top' % (a,)
        if name == 'Tuplizer':
            for a, _ in list(t.d.values()):
                if isinstance(a, str) and a[:1] == '(':
                    return 'the relation %r is not converted' % (a,)
        u = call(I, p, 'undo_transform', t)
        if not isinstance(u, PyDict):
            return 'undo_transform returns %r' % (u,)
        if d is not SNUM and deep(I, u) != x0:
            return 'undoing gives %r' % (u,)
        if d is SNUM:
            t3 = call(I, p, 'transform', u)
            if deep(I, t3) != deep(I, t):
                return 'transforming the undone instance gives %r' % (t3,)
        return None
    ok, bad = reporter(ctx, RULE28, label, name)
    explore_into(ctx, prog, run, label, ok, bad)


def check_round(ctx, prog):
    from ..par import run_tasks
    ctx.rule('abstract value of undo(transform(x)) = x for generic values in every shape class and attribute order; the transformed '
             'form has the documented shape')
    T = []
    for name, (make, ds) in MAKE.items():
        for i, d in enumerate(ds + ([SNUM] if name == 'Tuplizer' else [])):
            for k in range(3):
                T.append(('%s %d %d' % (name, i, k), lambda c, a=(name, make, d, k): scen28(c, prog, *a)))
    from .isolate import big_tasks
    run_tasks(ctx, T + big_tasks(prog, ('default_gensym',)))
