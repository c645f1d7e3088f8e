"""C15: choosing values.  C16: completing instances."""
import itertools
from .. import num as N
from ..values import *
from ..harness import *
from .scores import conv

RULEM = 'the most likely choice has the largest weight, ties can go either way'
RULES = 'sampling picks each value with its share of the weight'


def measure(I):
    """Length of the range of the one random draw this path stands for."""
    if I.rnd == 0:
        return 1.0
    tot = 1.0
    for i in range(1, I.rnd + 1):
        lo, hi = N.B.get('rnd%d' % i, (0.0, 1.0))
        if ('gauss%d' % i) in N.B:
            continue
        if ('rnd%d' % i) not in N.B:
            raise Unsupported('draw not tracked')
        tot *= max(0.0, min(hi, 1.0) - max(lo, 0.0))
    return tot


VALS = ['p', None, 'q', True]


def choice_scen(ctx, prog, fn, k):
    label = 'utils.%s of %d options' % (fn, k)
    top = 3 if k < 4 else 2

    def one(ws):
        got = {}

        def run(I):
            l = PyList(I, [(VALS[i], N.const(float(w)) if i % 2 or isinstance(w, float) else w) for i, w in enumerate(ws)])
            I.frozen0 = deep(I, l)
            r = I.call(I.get(PK + 'utils', fn), [l], {})
            return l, r

        def ok(I, v, r):
            l, x = v
            if deep(I, l) != I.frozen0:
                ctx.fail('utils.' + fn, 'the options passed in are not changed', 'weights %s: the list is changed' % (ws,), {
                    'function': fn})
                return
            i = next((i for i in range(k) if type(VALS[i]) is type(x) and VALS[i] == x), None)
            if i is None:
                ctx.fail('utils.' + fn, RULEM if fn[0] == 'm' else RULES, 'weights %s: returns %r' % (ws, x), {
                    'function': fn})
                return
            got[i] = got.get(i, 0.0) + (measure(I) if fn[0] == 'w' else 1)
            ctx.ok()

        def bad(I, v, r):
            if min(ws) < 0 and v.cls.name == 'ValueError':
                ctx.ok()
                return
            if fn[0] == 'w' and sum(ws) == 0:
                return
            ctx.fail(v.fields.get('__where__', '?'), 'a value is chosen whenever there are options', 'weights %s: raises %s(%s)' % (
                ws, v.cls.name, desc(v.fields.get('args', ()))), {'choices': trace_of(r), 'function': fn})
        und, bad0 = sum(ctx.undecided.values()), len(ctx.violations)
        explore_into(ctx, prog, run, label, ok, bad)
        if und != sum(ctx.undecided.values()) or len(ctx.violations) != bad0:
            return
        if min(ws) < 0:
            if got and fn[0] == 'm':
                ctx.fail('utils.' + fn, 'negative weights are rejected', 'weights %s are accepted' % (ws,), {'function': fn})
            return
        if fn[0] == 'm':
            want = {i for i in range(k) if ws[i] == max(ws)}
            if set(got) - want:
                ctx.fail('utils.' + fn, RULEM, 'weights %s: option %s can be returned' % (ws, sorted(set(got) - want)), {
                    'function': fn})
            elif want - set(got):
                ctx.fail('utils.' + fn, RULEM, 'weights %s: option %s is never returned' % (ws, sorted(want - set(got))), {
                    'function': fn})
            else:
                ctx.ok()
        elif sum(ws):
            for i in range(k):
                if abs(got.get(i, 0.0) - ws[i] / float(sum(ws))) > 1e-9:
                    ctx.fail('utils.' + fn, RULES, 'weights %s: option %d is returned for a share of %.4g of the draws' % (
                        ws, i, got.get(i, 0.0)), {'function': fn})
                    return
            ctx.ok()
    for ws in itertools.product(range(top), repeat=k):
        one(ws)
    if k == 2:
        one((-1, 2))
        one((2, -1))
        one((0.25, 0.75))
        one((1e-9, 1))
        one((5e-5, 1))
        one((0.3, 0.30001))
        one((0.75, 0.7500000001))
    if k == 3:
        one((1, -1, 3))
        one((0.5, 0.25, 0.25))
        one((1e-5, 0.4, 0.4000001))


def empty_scen(ctx, prog, fn):
    def run(I):
        return I.call(I.get(PK + 'utils', fn), [PyList(I, [])], {})

    def ok(I, v, r):
        ctx.fail('utils.' + fn, 'choosing from nothing is an error', 'returns %r' % (v,), {'function': fn})

    def bad(I, v, r):
        if v.cls.name == 'ValueError':
            ctx.ok()
        else:
            ctx.fail('utils.' + fn, 'choosing from nothing is an error', 'raises %s' % v.cls.name, {'function': fn})
    explore_into(ctx, prog, run, 'utils.%s of nothing' % fn, ok, bad)


def leaf(I, kind, table, count):
    """A concept with a concrete table; returns (tree, node)."""
    kw = {'scaling': N.const(0.5)} if kind != 'cobweb' else {}
    tree = new_tree(I, kind, **kw)
    n = I.getattr_(tree, 'root')
    known_layout(n, NODE_FIELDS)
    n.fields['count'] = N.const(float(count))
    av = PyDict(I)
    for a, vals in table.items():
        d = PyDict(I)
        for v, c in vals.items():
            if v == CV:
                lo, hi = (c, c)
                x = N.atom('%s.s' % (a,))
                q = N.mul(x, x) if c == 1 else N.atom('%s.q' % (a,), 200)
                o = cv_object(I, N.const(float(c)), x, q, '%s.cv' % (a,))
                I.dset(d, v, o, raw=True)
                sc = tree_scales(I, tree, False)
                if sc is not None:
                    I.dset(sc, a[0] if isinstance(a, tuple) else a, o, raw=True)
            else:
                I.dset(d, v, N.const(c), raw=True)
        I.dset(av, a, d, raw=True)
    n.fields['av_counts'] = av
    return tree, n


RULEP = 'prediction chooses among the observed values by their frequencies'


def predict_scen(ctx, prog, kind, fnname):
    label = 'predict (%s) of a %s concept' % (fnname, kind)
    sampled = fnname in ('sampled', 's')
    tabs = []
    for v, w, miss in itertools.product((1, 2, 3), (0, 1, 2), (0, 1, 2)):
        t = {'v': v}
        if w:
            t['w'] = w
        tabs.append((t, miss))
    if kind != 'cobweb':
        for v, w, miss in itertools.product((1, 2, 3), (0, 1, 2), (0, 1, 2)):
            t = {CV: v}
            if w:
                t['w'] = w
            tabs.append((t, miss))

    def one(t, miss, an):
        got = {}
        count = sum(t.values()) + miss
        vals = dict(t)
        if an is not False and miss:
            vals[None] = miss

        def run(I):
            tree, n = leaf(I, kind, {'a': t, 'z': {'other': count}}, count)
            a = {} if fnname is None else {'choice_fn': fnname}
            if an is not None:
                a['allow_none'] = an
            r = I.call(I.getattr_(n, 'predict'), ['a'], a)
            return n, r

        def ok(I, v, r):
            n, x = v
            if I.is_num(x) and not isinstance(x, bool):
                if CV not in t:
                    return fail('returns the number %r' % (x,))
                av = I.dget(I.dget(n.fields['av_counts'], 'a'), CV)
                m = av.fields['mean']
                key = CV
                if not sampled:
                    s = same(I, x, m)
                    if s is False:
                        return fail('the number predicted is %r, not the mean %r' % (x, m))
                else:
                    ev = [e for e in I.events if e[0] == 'normal']
                    if len(ev) != 1:
                        raise Unsupported('not drawn from one normal distribution')
                    sd = I.num(I.call(I.getattr_(av, 'unbiased_std'), [], {}))
                    if same(I, ev[0][1], m) is False or same(I, ev[0][2], sd) is False:
                        return fail('the number is not drawn from the normal distribution of the observed values')
            else:
                key = x
                if x == CV and isinstance(x, str):
                    return fail('returns the internal marker of numeric attributes')
                if key not in vals:
                    return fail('returns %r' % (x,))
            got[key] = got.get(key, 0.0) + (measure(I) if sampled else 1)
            ctx.ok()

        def fail(msg):
            ctx.fail('predict (%s)' % kind, RULEP, 'counts %s of %d, missing values %s: %s' % (
                t, count, 'excluded' if an is False else 'allowed', msg), {'function': 'predict', 'choice': fnname})

        def bad(I, v, r):
            fail('raises %s(%s)' % (v.cls.name, desc(v.fields.get('args', ()))))
        und, v0 = sum(ctx.undecided.values()), len(ctx.violations)
        explore_into(ctx, prog, run, label, ok, bad)
        if und != sum(ctx.undecided.values()) or len(ctx.violations) != v0:
            return
        if not sampled:
            want = {x for x in vals if vals[x] == max(vals.values())}
            if set(got) != want:
                fail('the values that can be returned are %s, the most frequent ones are %s' % (
                    sorted(map(str, got)), sorted(map(str, want))))
            else:
                ctx.ok()
        else:
            for x in vals:
                if abs(got.get(x, 0.0) - vals[x] / float(sum(vals.values()))) > 1e-9:
                    return fail('%r is returned for a share of %.4g of the draws' % (x, got.get(x, 0.0)))
            ctx.ok()
    for t, miss in tabs:
        for an in (None, True, False):
            one(t, miss, an)

    # attributes never seen, and unknown ways to choose
    def run(I):
        tree, n = leaf(I, kind, {'z': {'other': 2}}, 2)
        a = {} if fnname is None else {'choice_fn': fnname}
        return I.call(I.getattr_(n, 'predict'), ['never seen'], a)

    def ok(I, v, r):
        if v is not None:
            ctx.fail('predict (%s)' % kind, RULEP, 'predicts %r for an attribute that was never seen' % (v,), {
                'function': 'predict'})
        else:
            ctx.ok()
    explore_into(ctx, prog, run, label + ', unseen attribute', ok)


def badfn_scen(ctx, prog, kind):
    def run(I):
        tree, n = leaf(I, kind, {'a': {'v': 2}}, 2)
        w = I.choose(2, 'attribute')
        return I.call(I.getattr_(n, 'predict'), [('a', 'zz')[w], 'nonsense'], {})

    def ok(I, v, r):
        ctx.fail('predict (%s)' % kind, 'unknown ways to choose are rejected', 'returns %r' % (v,), {'function': 'predict'})

    def bad(I, v, r):
        ctx.ok()
    explore_into(ctx, prog, run, 'predict with an unknown way to choose', ok, bad)


def check_choice(ctx, prog):
    from ..par import run_tasks
    ctx.rule('all weak orderings of weights: the result set equals the set of maxima; for sampling, the interval of the '
             'random draw leading to each value has exactly its share of the weight')
    T = []
    for fn in ('most_likely_choice', 'weighted_choice'):
        for k in (1, 2, 3, 4):
            T.append(('%s %d' % (fn, k), lambda c, fn=fn, k=k: choice_scen(c, prog, fn, k)))
        T.append((fn + ' empty', lambda c, fn=fn: empty_scen(c, prog, fn)))
    for kind in ('cobweb', 'cobweb3'):
        for f in (None, 'most likely', 'm', 'sampled', 's'):
            T.append(('predict %s %s' % (kind, f), lambda c, kind=kind, f=f: predict_scen(c, prog, kind, f)))
        T.append(('bad ' + kind, lambda c, kind=kind: badfn_scen(c, prog, kind)))
    from .stale import tasks
    run_tasks(ctx, T + tasks(prog, ('predict',), ()))


# --------------------------------------------------------------------- C16
RULEI = 'inference keeps what was given and adds only values the reached leaf holds'


class Small(object):
    """Root with a leaf child, and a child with two leaves; every leaf has an
    attribute that identifies it."""

    def __init__(self, I, kind):
        self.I = I
        self.kind = kind
        self.num = kind not in ('cobweb',)
        self.tree = new_tree(I, kind)
        self.cls = I.getattr_(I.getattr_(self.tree, 'root'), '__class__')
        self.leaves = {}
        I.region = 'init'
        if kind == 'dummy':
            root, st = self.leaf('k0')
        else:
            a, sa = self.leaf('k0')
            b, sb = self.leaf('k1', extra=True)
            c, sc = self.leaf('k2')
            inner, si = self.inner('in', [(b, sb), (c, sc)])
            root, st = self.inner('root', [(a, sa), (inner, si)])
        I.setattr_(self.tree, 'root', root)
        if self.num:
            o = cv_object(I, N.atom('S.n', 30, 1e6), N.atom('S.s'), N.atom('S.q', 200), 'S')
            I.dset(tree_scales(I, self.tree), 'x', o, raw=True)
        I.region = 'run'

    def leaf(self, nm, extra=False):
        sp = {'id': {nm: 'n'}, 'a': {'v': 'n', 'w': 'n'}, '_h': {'h' + nm: 'n'}}
        if self.num:
            sp['x'] = {CV: CV}
        if extra:
            sp['e'] = {'ev': 'n'}
            sp[('c', '?o7')] = {'cv': 'n'}
        st = Stat()
        st.count = N.const(4.0)
        cs = {nm: 4, 'v': 2, 'w': 1, 'h' + nm: 2, 'ev': 3, 'cv': 4}
        for a, vals in sp.items():
            for v in vals:
                st.t[a, v] = (N.const(cs[v]),) if v != CV else (
                    N.const(3.0), N.atom('%s.%s.s' % (nm, a)), N.atom('%s.%s.q' % (nm, a), 200))
        n = self.node(nm, st)
        self.leaves[nm] = (n, sp)
        return n, st

    def node(self, nm, st):
        I = self.I
        n = I.call(self.cls, [], {})
        known_layout(n, NODE_FIELDS)
        n.tag = nm
        n.fields['count'] = st.count
        n.fields['tree'] = self.tree
        av = PyDict(I)
        GTree.fill(self, av, st, nm, None)
        n.fields['av_counts'] = av
        return n

    def inner(self, nm, kids):
        st = Stat()
        st.count = N.const(0)
        for _, s in kids:
            st = stat_comb(self.I, st, s)
        n = self.node(nm, st)
        n.fields['children'] = PyList(self.I, [k for k, _ in kids])
        for k, _ in kids:
            k.fields['parent'] = n
        return n, st


def subsumes(I, given, got):
    """Is everything in `given` (nested) in `got` with the same value?"""
    if isinstance(given, PyDict):
        if not isinstance(got, PyDict):
            return 'is %r' % (got,)
        for k, _ in list(given.d.values()):
            x = I.dget(got, k, None, Missing)
            if x is Missing:
                return 'attribute %r is gone' % (k,)
            m = subsumes(I, I.dget(given, k), x)
            if m:
                return '%r: %s' % (k, m)
        return None
    if deep(I, given) != deep(I, got):
        return 'the value %r became %r' % (given, got)
    return None


class Missing(object):
    pass


def has_none(I, v):
    if v is None:
        return True
    if isinstance(v, PyDict):
        return any(has_none(I, I.dget(v, k)) for k, _ in list(v.d.values()))
    return False


def wide_scen(ctx, prog, kind):
    label = 'infer_missing in a %s tree with many attributes' % kind

    def run(I):
        quick_scores(I)
        opaque_whatif(I)
        at = ['w%d' % i for i in range(130)]
        g = GTree(I, kind, {a: {'v': 'n'} for a in at}, depth=1, rest=False, shape=False)
        r = I.call(I.getattr_(g.tree, 'infer_missing'), [mk(I, {'w3': 'mine'}), 'most likely', False], {})
        for a in at:
            v = I.dget(r, a, None, None)
            if v != ('mine' if a == 'w3' else 'v'):
                return '%r is %r' % (a, v)
        return None
    from .prep import reporter
    ok, bad = reporter(ctx, RULEI, label, 'infer_missing')
    explore_into(ctx, prog, run, label, ok, bad)


INF_INST = [{}, {'a': 'q'}, {'a': 'v', '_h': 'mine'}, {'zz': 'new', 'id': 'other'}, {'e': 'mine'}, {'a': True}, {'a': 0}, {'a': ''}]


def infer_scen(ctx, prog, kind, args, nested):
    label = 'infer_missing%r on a %s tree' % (args, kind)

    def run(I):
        quick_scores(I)
        opaque_whatif(I)
        T = Small(I, kind)
        if nested:
            il = [{'?p': {'c': 'mine', 'k': 'w'}, 'a': 'v'}, {'?p': {'c': 'mine', '?q': {'z': 'u', '_n': 'h'}}},
                  {'o': {'c': 'mine'}, ('rel', '?p', 'o'): 'yes', '?p': {'y': 'v'}}]
        else:
            il = INF_INST + ([{'x': 'num'}, {'x': 'text', 'a': 'v'}, {'x': 0}] if kind != 'cobweb' else [])
        d = dict(il[I.choose(len(il), 'instance')])
        for k in d:
            if d[k] == 'num':
                d[k] = N.atom('i.' + k)
        inst = mk(I, d)
        snap = deep(I, inst)
        r = I.call(I.getattr_(T.tree, 'infer_missing'), [inst] + list(args), {})
        return T, inst, snap, r

    def ok(I, v, r):
        T, inst, snap, res = v

        def fail(msg):
            ctx.fail('infer_missing (%s)' % kind, RULEI, '%s: %s' % (label, msg), {'choices': trace_of(r),
                                                                                  'function': 'infer_missing'})
        if not isinstance(res, PyDict):
            return fail('returns %r' % (res,))
        if res is inst:
            return fail('returns the instance it was given')
        if deep(I, inst) != snap:
            return fail('changes the instance it was given')
        m = subsumes(I, inst, res)
        if m:
            return fail(m)
        if has_none(I, res):
            return fail('a missing value is filled with None')
        ctx.ok()
        if nested:
            return
        added = {}
        for k, _ in list(res.d.values()):
            if I.dget(inst, k, None, Missing) is Missing:
                added[k] = I.dget(res, k)
        why = []
        for nm, (n, sp) in T.leaves.items():
            w = None
            for k, x in added.items():
                kk = k
                if kk not in sp:
                    if k == '?o7' and isinstance(x, PyDict) and ('c', '?o7') in sp:
                        continue
                    w = '%r is not an attribute of leaf %s' % (k, nm)
                    break
                if CV in sp[kk]:
                    if not I.is_num(x):
                        w = '%r is filled with %r' % (k, x)
                        break
                    if args[:1] in ((), ('most likely',), ('m',)):
                        cvo = I.dget(I.dget(n.fields['av_counts'], kk), CV)
                        if same(I, x, cvo.fields['mean']) is False:
                            w = '%r is filled with a number other than the mean of leaf %s' % (k, nm)
                            break
                elif x not in sp[kk]:
                    w = '%r is filled with %r, which leaf %s does not hold' % (k, x, nm)
                    break
            if w is None and args[1:] == (False,):
                for kk in sp:
                    if kk not in added and I.dget(inst, kk, None, Missing) is Missing and not (
                            isinstance(kk, tuple) and kind in ('trestle', 'dummy')):
                        w = '%r of leaf %s is not filled although missing values are excluded' % (kk, nm)
            if w is None:
                ctx.ok()
                return
            why.append(w)
        fail(why[0])

    def bad(I, v, r):
        ctx.fail(v.fields.get('__where__', '?'), RULEI, '%s: raises %s(%s)' % (label, v.cls.name, desc(
            v.fields.get('args', ()))), {'choices': trace_of(r), 'function': 'infer_missing'})
    explore_into(ctx, prog, run, label, ok, bad)


def bare(k):
    """A relation with objects named by themselves instead of by path."""
    if isinstance(k, tuple):
        if len(k) == 2 and isinstance(k[0], str) and k[0][:1] == '?':
            return k[0]
        return tuple(bare(x) for x in k)
    return k


def lifted(I, given, got):
    """The result with objects of the given instance that were found to be components of added objects back at the top."""
    found = {}

    def walk(v):
        for k, _ in list(v.d.values()):
            x = I.dget(v, k)
            if isinstance(k, str) and k[:1] == '?':
                found.setdefault(k, []).append(x)
            if isinstance(x, PyDict):
                walk(x)
    walk(got)
    r = PyDict(I)
    for k, _ in list(got.d.values()):
        I.dset(r, k, I.dget(got, k), raw=True)
        if isinstance(k, tuple) and I.dget(r, bare(k), None, Missing) is Missing:
            I.dset(r, bare(k), I.dget(got, k), raw=True)
    for k, _ in list(given.d.values()):
        if isinstance(k, str) and k[:1] == '?' and I.dget(got, k, None, Missing) is Missing and len(found.get(k, ())) == 1:
            I.dset(r, k, found[k][0], raw=True)
    return r


STRUCT = {'a': {'v': 'n'}, 'o': {'v': 'n'}, ('k', 'w'): {'v': 'n'}, ('c', '?o1'): {'v': 'n'}, ('d', '?o1'): {'v': 'n'}, '?o2': {'v': 'n'},
          ('c', '?o3'): {'v': 'n'}, ('has-component', '?o1', '?o2'): {True: 'n'}, ('has-component', '?o1', '?o3'): {True: 'n'},
          ('near', '?o1', '?o3', 'k'): {'v': 'n'}, '_h': {'v': 'n'}}
SINST = [{'?p': {'c': 'mine', '?q': {'c': 'also', '_x': 'h'}}}, {'?p': 'atom', 'a': 'mine'}, {'o': {'k': 'mine', 'i': {'j': 'x'}}},
         {'w': 'mine', '_h': 'mine'}, {'?o1': {'c': 'mine'}, '?o2': {'e': 'mine', 'd': 0}}, {'?o2': 'mine', '?o3': {'c': ''}},
         {'?p': {'in': {'?q': {'c': 'mine'}}}}, {'?o3': {'?o2': {'?o1': {'d': 'mine'}}}},
         {'?p': {'c': 'mine'}, '?q': {'?r': {'y': 'mine'}}, ('near', '?p', '?q', 'k'): 'mine'}]


def struct_scen(ctx, prog, i):
    """Given structure survives whatever the concept adds to it."""
    label = 'infer_missing of a structured instance'

    def run(I):
        quick_scores(I)
        opaque_whatif(I)
        from .mapper import opaque_cost, short_search
        opaque_cost(I)
        short_search(I)
        g = GTree(I, 'trestle', STRUCT, depth=0, rest=False, shape=False)
        burn_names(I, g.tree, 3)
        none = I.choose(3, 'predicted')
        for q in ('cobweb.CobwebNode', 'cobweb3.Cobweb3Node'):
            I.intercepts[PK + q + '.predict'] = lambda I, f, a, k, n: (
                None if none == 1 and isinstance(a[1], tuple) and len(a[1]) == 2 or none == 2 and a[1] == '?o2' else 'z')
        x = mk(I, SINST[i])
        x0 = deep(I, x)
        r = I.call(I.getattr_(g.tree, 'infer_missing'), [x], {})
        if deep(I, x) != x0:
            return 'changes the instance it was given'
        if not isinstance(r, PyDict):
            return 'returns %r' % (r,)
        m = subsumes(I, x, lifted(I, x, r))
        return m and '%s: %s' % (SINST[i], m)

    def ok(I, v, r):
        if v is None:
            return ctx.ok()
        ctx.fail('infer_missing (trestle)', RULEI, '%s: %s' % (label, v), {'choices': trace_of(r), 'function': 'infer_missing'})

    def bad(I, v, r):
        ctx.fail(v.fields.get('__where__', '?'), RULEI, '%s %s: raises %s(%s)' % (label, SINST[i], v.cls.name, desc(
            v.fields.get('args', ()))), {'choices': trace_of(r), 'function': 'infer_missing'})
    explore_into(ctx, prog, run, label, ok, bad)


def check_infer(ctx, prog):
    from ..par import run_tasks
    ctx.rule('on every path through inference over a tree with identifiable leaves: given values are kept, the argument is not '
             'changed, no None appears, and all additions come from one leaf')
    T = []
    for kind in ('cobweb', 'cobweb3', 'trestle', 'dummy'):
        for args in ((), ('most likely', False), ('m', True), ('sampled', False), ('s',)):
            T.append(('%s %r' % (kind, args), lambda c, kind=kind, args=args: infer_scen(c, prog, kind, args, False)))
        T.append(('wide %s' % kind, lambda c, kind=kind: wide_scen(c, prog, kind)))
        if kind in ('trestle', 'dummy'):
            for args in ((), ('sampled', False)):
                T.append(('nested %s %r' % (kind, args), lambda c, kind=kind, args=args: infer_scen(c, prog, kind, args, True)))
    for i in range(len(SINST)):
        T.append(('structured %d' % i, lambda c, i=i: struct_scen(c, prog, i)))
    from .stale import tasks
    run_tasks(ctx, T + tasks(prog, (), ('infer_missing',)))
