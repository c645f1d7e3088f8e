"""C31: structure mapping renames objects one to one."""
import itertools
from .. import num as N
from ..values import *
from ..harness import *
from .scores import conv, ecg
from .prep import reporter, call, names, inst as mkinst

RULE = 'objects are renamed one to one and nothing else changes'


TN = ('?t0', '?obj10', '?part of', '?t3')
BN = ('?b0', '?base17', '?b2', '?b3')


def base_node(I, nobj, extra=True):
    """A concept whose table mentions nobj objects."""
    spec = {'a': {'v': 'n'}, '_h': {'w': 'n'}}
    for i in range(nobj):
        spec[('c', BN[i])] = {'v': 'n', 'w': 'n'}
        spec[('_', ('_h', BN[i]))] = {'v': 'n'}
        if i:
            spec[('rel', BN[i], BN[i - 1])] = {'yes': 'n'}
    g = GTree(I, 'trestle', spec, depth=0, rest=False, shape=False)
    return g


def target(I, nobj):
    d = {'a': 'v', '_g': 'q', ('plain', 'x', 'y'): 'u'}
    for i in range(nobj):
        if i == 0:
            d['?t0'] = 'atom'
            d[('on', '?t0')] = TN[nobj - 1]
            d['says'] = '?t0'
        elif i < 4:
            d[TN[i]] = (True, N.atom('p2'), None)[i - 1]
        d[('c', TN[i])] = 'v'
        d[('_', ('_h', TN[i]))] = N.atom('t%d' % i)
        if i:
            d[('rel', TN[i], ('sub', TN[i - 1]), 'k')] = 'yes'
    return d


def ren(k, m):
    if isinstance(k, tuple):
        return tuple(ren(x, m) for x in k)
    return m.get(k, k)


def ref_rename(d, m):
    return {(m[k] if k in m else ren(k, m)): v for k, v in d.items()}


def opaque_cost(I):
    I.intercepts[PK + 'structure_mapper.mapping_cost'] = lambda I, f, a, k, n: I.fresh('cost')


def short_search(I):
    """The assignment step reaches every one-to-one mapping already: the search after it may stay where it is."""
    def hc(I, f, args, kw, node):
        p = args[0] if args else kw['problem']
        return IterV([(I.call(I.get('py_search.base', 'SolutionNode'), [I.getattr_(p, 'initial'), None], {}), None)])
    I.intercepts['py_search.optimization.hill_climbing'] = hc


def pymap(I, m):
    if isinstance(m, PyDict):
        return {k: v for k, v in m.d.values()}
    raise Unsupported('mapping has another form')


def valid(m, tn, bn):
    for k, v in m.items():
        if k not in tn:
            return 'the mapping renames %r, which is not an object of the instance' % (k,)
        if v != k and v not in bn:
            return '%r is renamed to %r, which is no object of the concept' % (k, v)
    if len(set(m.values())) != len(m):
        return 'two objects get the same name: %s' % m
    return None


def scen_map(ctx, prog, nt, nb, init):
    label = 'mapping %d objects onto %d' % (nt, nb)

    def run(I):
        opaque_cost(I)
        g = base_node(I, nb)
        S = I.call(I.get(PK + 'structure_mapper', 'StructureMapper'), [g.root], {})
        d = target(I, nt)
        x = mkdict(I, d)
        x0 = deep(I, x)
        tn = {TN[i] for i in range(nt)}
        bn = {BN[i] for i in range(nb)}
        args = [x]
        if init:
            l = [(TN[0], BN[0]), (TN[1], BN[1]), ('?zz', BN[1]), (TN[1], '?yy')][:2 + I.choose(3, 'initial')]
            args.append(PySet(I, True))
            for e in l:
                args[1].d[I.hkey(e)] = e
        t = call(I, S, 'transform', *args)
        if deep(I, x) != x0:
            return 'the instance passed in is changed'
        if t is x and nt and nb:
            return 'transform returns its argument'
        if not isinstance(t, PyDict):
            return 'transform returns %r' % (t,)
        m = pymap(I, call(I, S, 'get_mapping'))
        bad = valid(m, tn, bn)
        if bad:
            return bad
        if not init and nt and nb and set(m) != tn:
            return 'objects %s have no mapping' % sorted(tn - set(m))
        want = deep(I, mkdict(I, ref_rename(d, m)))
        if deep(I, t) != want:
            return 'the mapped instance is %r under the mapping %s' % (t, m)
        t0 = deep(I, t)
        u = call(I, S, 'undo_transform', t)
        if deep(I, t) != t0:
            return 'undoing changes its argument'
        if deep(I, u) != x0:
            return 'undoing the mapping gives %r' % (u,)
        # attributes added by inference are renamed along
        if m:
            k, v = sorted(m.items())[0]
            I.dset(t, ('added', v), 'z', raw=True)
            u = call(I, S, 'undo_transform', t)
            if I.dget(u, ('added', k), None, None) != 'z':
                return 'an attribute added to the mapped object is not mapped back'
        return None
    ok, bad = reporter(ctx, RULE, label, 'StructureMapper')
    explore_into(ctx, prog, run, label, ok, bad, max_paths=60000)


def states(nt, nb):
    """All one-to-one partial mappings of nt objects into nb."""
    tn = [TN[i] for i in range(nt)]
    bn = [BN[i] for i in range(nb)]
    for im in itertools.product([None] + bn, repeat=nt):
        used = [x for x in im if x]
        if len(set(used)) != len(used):
            continue
        yield {t: (b or t) for t, b in zip(tn, im)}, set(bn) - set(used)


def scen_ops(ctx, prog, nt, nb, fn):
    label = '%s with %d and %d objects' % (fn, nt, nb)
    sts = list(states(nt, nb))

    def run(I):
        opaque_cost(I)
        g = base_node(I, nb)
        m, un = sts[I.choose(len(sts), 'mapping')]
        if fn == 'random_successor':
            # leaves the search space when there is nothing to exchange
            if len(un) == 0 and sum(1 for k in m if m[k] != k) < 2 or not m:
                raise Prune()
            if not un and all(m[k] == k for k in m):
                raise Prune()
        M = PySet(I, True)
        for e in m.items():
            M.d[I.hkey(e)] = e
        U = PySet(I, True)
        for e in un:
            U.d[I.hkey(e)] = e
        x = mkdict(I, target(I, nt))
        C = I.get(PK + 'structure_mapper', 'StructureMappingOptProblem')
        p = I.call(C, [(M, U)], {'initial_cost': N.atom('c0'), 'extra': (x, g.root)})
        r = call(I, p, fn, I.getattr_(p, 'initial'))
        out = [y for y, _ in I.iterate(r)] if fn == 'successors' else [r]
        tn, bn = set(m), {BN[i] for i in range(nb)}
        seen = []
        for q in ('cobweb.CobwebNode', 'cobweb3.Cobweb3Node'):
            I.intercepts[PK + q + '.expected_correct_guesses'] = lambda I, f, a, k, n: (
                seen.append({x for x, _ in a[0].fields['av_counts'].d.values()}), I.fresh('guesses'))[1]
        I.intercepts.pop(PK + 'structure_mapper.mapping_cost', None)
        for n in out:
            # the step can be valued
            del seen[:]
            call(I, p, 'node_value', n)
            st = I.getattr_(n, 'state')
            if not isinstance(st, tuple) or len(st) != 2 or not isinstance(st[0], PySet):
                raise Unsupported('search states have another form')
            mm = dict(st[0].d.values())
            if len(mm) != len(st[0].d):
                return 'an object has two names after a step from %s' % m
            bad = valid(mm, tn, bn)
            if bad:
                return '%s (a step from %s)' % (bad, m)
            if set(mm) != tn:
                return 'objects %s lose their mapping in a step from %s' % (sorted(tn ^ set(mm)), m)
            want = {x for x, _ in g.root.fields['av_counts'].d.values()} | set(ref_rename(target(I, nt), mm))
            if seen and not any(w == want for w in seen):
                return 'a step to %s is valued for %s' % (mm, sorted(map(str, seen[0] ^ want)))
            free = bn - set(mm.values())
            if set(st[1].d.values()) != free:
                return 'after a step from %s the names thought free are %s instead of %s' % (
                    m, sorted(st[1].d.values()), sorted(free))
        return None
    ok, bad = reporter(ctx, 'every search step keeps the mapping one to one', label, fn)
    explore_into(ctx, prog, run, label, ok, bad)


def scen_collide(ctx, prog):
    def run(I):
        opaque_cost(I)
        g = base_node(I, 2)
        S = I.call(I.get(PK + 'structure_mapper', 'StructureMapper'), [g.root], {})
        d = {('c', [BN[0], BN[1]][I.choose(2, 'name')]): 'v', ('c', TN[1]): 'v'}
        try:
            call(I, S, 'transform', mkdict(I, d))
        except PyRaise:
            return None
        return 'an instance that uses an object name of the concept is accepted'
    ok, bad = reporter(ctx, 'clashing names are rejected', 'transform with clashing names', 'flat_match')
    explore_into(ctx, prog, run, 'clash', ok, bad)

    def run2(I):
        S = I.call(I.get(PK + 'structure_mapper', 'StructureMapper'), [base_node(I, 1).root], {})
        try:
            call(I, S, 'undo_transform', mkdict(I, {'a': 'v'}))
        except PyRaise:
            return None
        return 'undoing before transforming is accepted'
    explore_into(ctx, prog, run2, 'undo first', ok, bad)


def scen_cost(ctx, prog, asnode):
    label = 'cost of a mapping'

    def run(I):
        # summaries of many values, so that the regime of the spread is fixed
        g = GTree(I, 'trestle', {'a': {'v': 'n'}, ('c', '?b0'): {'v': 'n', 'w': 'n'}, ('c', '?b1'): {'v': 'n'},
                                 ('x', '?b1'): {CV: CV}, '_h': {'v': 'n'}}, depth=0, rest=False, shape=False, cvlo=30)
        d = {'a': 'v', ('c', '?t0'): 'v', ('c', '?t1'): 'q', ('x', '?t0'): N.atom('tx'), '_g': 'v'}
        if I.choose(2, 'scaled'):
            o = cv_object(I, N.atom('Sx.n', 30, 1e6), N.atom('Sx.s'), N.atom('Sx.q', 200), 'Sx')
            N.B['Sx.mq'] = (1.0, INF)
            o.fields['meanSq'].lo = 1.0
            I.dset(tree_scales(I, g.tree), 'x', o, raw=True)
        ms = [{}, {'?t0': '?b0'}, {'?t0': '?b1', '?t1': '?b0'}, {'?t0': '?t0', '?t1': '?b1'}]
        m = ms[I.choose(len(ms), 'mapping')]
        if I.choose(2, 'as set'):
            M = PySet(I, True)
            for e in m.items():
                M.d[I.hkey(e)] = e
        else:
            M = mkdict(I, m)
        x = mkdict(I, d)
        s0, b0 = deep(I, x), node_state(I, g.root)
        got = I.call(I.get(PK + 'structure_mapper', 'mapping_cost'), [M, x, g.root], {})
        if deep(I, x) != s0 or node_state(I, g.root) != b0:
            return 'the instance or the concept is changed'
        st = stat_comb(I, g.init[g.root.oid], instance_stat(I, ref_rename(d, m), True))
        try:
            want = N.scale(ecg(I, g.tree, st), -1)
        except Unsupported:
            raise Prune()
        s = same(I, got, want)
        if s is None:
            raise Unsupported('equal only under path conditions')
        return None if s else '%r instead of %r for the mapping %s' % (got, want, m)
    ok, bad = reporter(ctx, 'the cost of a mapping is the negated score of the concept with the renamed instance', label,
                       'mapping_cost')
    explore_into(ctx, prog, run, label, ok, bad)


def check(ctx, prog):
    from ..par import run_tasks
    ctx.rule('every mapping the matcher can return (all assignments, all search steps) is one to one, is applied as given and can be '
             'undone; every search step preserves this from every one-to-one mapping (induction)')
    T = []
    for nt in range(4):
        for nb in range(3):
            if nt * nb <= 4 or ctx.thorough:
                T.append(('map %d %d' % (nt, nb), lambda c, nt=nt, nb=nb: scen_map(c, prog, nt, nb, False)))
    for nt, nb in ((2, 2), (3, 2), (2, 3)):
        T.append(('init %d %d' % (nt, nb), lambda c, nt=nt, nb=nb: scen_map(c, prog, nt, nb, True)))
    for nt in range(1, 4):
        for nb in range(1, 4):
            for fn in ('successors', 'random_successor'):
                T.append(('%s %d %d' % (fn, nt, nb), lambda c, a=(nt, nb, fn): scen_ops(c, prog, *a)))
    T.append(('collide', lambda c: scen_collide(c, prog)))
    T.append(('cost', lambda c: scen_cost(c, prog, False)))
    run_tasks(ctx, T)
