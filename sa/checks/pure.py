"""C01: questions do not change the tree."""
from .. import num as N
from ..values import *
from ..harness import *
from .scores import Flat, A, A2, A3, X, X2, XM, conv

HID = {'_h': {'v': 'n'}, 'a': {'v': 'n'}}
GUID = {'_h': {CV: CV}, 'a': {'w': 'n'}, 'x': {CV: CV}, '_guid': {'g1': 'n', 'g2': 'n'}}
MIX = {'cobweb': ([A, HID], A, [HID, A]), 'cobweb3': ([X, GUID], X, [GUID, XM])}


def inst_of(I, kind, which):
    base = [{'a': 'v'}, {'c': 'new', '_h': 'v'}, {}]
    if kind != 'cobweb':
        base = [{'a': 'v', 'x': N.atom('i.x')}, {'y': N.atom('i.y'), '_h': 'v'}, {'x': 'v'}]
    return base[which]


def drain(I, v):
    if isinstance(v, (IterV, PyList, tuple)):
        return list(I.iterate(v)) if not isinstance(v, PyList) else v
    return v


def node_queries(kind):
    Q = []

    def q(name, nargs):
        Q.append((name, nargs))
    kid = lambda F, i: F.kids[i][0]
    q('expected_correct_guesses', [lambda I, F: ()])
    q('category_utility', [lambda I, F: ()])
    inst = [(lambda i: lambda I, F: (mkdict(I, inst_of(I, kind, i)),))(i) for i in range(3)]
    q('cu_for_new_child', inst)
    q('two_best_children', inst)
    q('compute_relative_CU_const', inst)
    q('is_exact_match', inst)
    q('cu_for_fringe_split', inst[:2])
    for nm in ('cu_for_insert', 'relative_cu_for_insert'):
        q(nm, [(lambda i: lambda I, F: (kid(F, 0), mkdict(I, inst_of(I, kind, i))))(i) for i in range(3)])
    q('cu_for_merge', [(lambda i: lambda I, F: (kid(F, 0), kid(F, 1), mkdict(I, inst_of(I, kind, i))))(i)
                       for i in range(3)])
    q('cu_for_split', [lambda I, F: (kid(F, 0),)])
    q('get_best_operation', [(lambda i: lambda I, F: (mkdict(I, inst_of(I, kind, i)), kid(F, 0), kid(F, 1),
                                                      N.atom('b1')))(i) for i in range(2)])
    attrs = ['a', 'x', '_h', 'zz'] if kind != 'cobweb' else ['a', '_h', 'zz']
    for nm in ('get_weighted_values', 'predict'):
        q(nm, [(lambda a: lambda I, F: (a,))(a) for a in attrs])
    q('predict', [lambda I, F: ('a', 'sampled', False), lambda I, F: ('a', 's', True)]
      + ([lambda I, F: ('x', 'sampled', True)] if kind != 'cobweb' else []))
    q('get_weighted_values', [lambda I, F: ('a', False)])
    q('probability', [(lambda a, v: lambda I, F: (a, v))(a, v) for a in attrs for v in ('v', 'q', None)]
      + ([lambda I, F: ('x', N.atom('pv')), lambda I, F: ('zz', N.atom('pv')), lambda I, F: ('a', N.atom('pv'))]
         if kind != 'cobweb' else []))
    q('log_likelihood', [lambda I, F: (kid(F, 0),), lambda I, F: (kid(F, 1),)])
    q('output_json', [lambda I, F: ()])
    q('pretty_print', [lambda I, F: ()])
    q('__str__', [lambda I, F: ()])
    q('depth', [lambda I, F: ()])
    q('num_concepts', [lambda I, F: ()])
    q('is_parent', [lambda I, F: (kid(F, 0),)])
    q('attrs', [lambda I, F: (), lambda I, F: ('all',)])
    q('shallow_copy', [lambda I, F: ()])
    q('__class__', [lambda I, F: (F.n,), lambda I, F: (kid(F, 0),)])
    return Q


def fail_changed(ctx, I, r, name, ch, label):
    ctx.fail('%s' % name, 'a query leaves the tree as it was', '%s changes %s' % (label, ', '.join(ch[:4])),
             {'choices': trace_of(r), 'function': name, 'writes': writes_of(I)})


def writes_of(I):
    out = []
    for o, loc, old, new, w, st in I.writes:
        if getattr(o, 'region', None) == 'init':
            out.append('%s: %s.%s' % (w, o.tag or o, loc))
    return sorted(set(out))[:6]


def scen_node(ctx, prog, kind, name, argfs):
    label = '%s.%s' % (kind, name)

    def run(I):
        specs, rest, grand = MIX[kind]
        summ = name not in ('num_concepts', 'output_json', 'pretty_print', '__str__', '__class__')
        kw = {'tree_kw': conv({'scaling': 0.5}), 'scales': {'x': 'big'}} if kind != 'cobweb' else {}
        F = Flat(I, kind, specs, rest if summ else None, grand, **kw)
        t0 = tree_state(I, F.tree)
        af = argfs[I.choose(len(argfs), 'arguments')]
        n = F.n
        if name not in ('two_best_children', 'get_best_operation', 'cu_for_merge', 'cu_for_split', 'cu_for_insert',
                        'relative_cu_for_insert') and name[0] != '_':
            n = [F.n, F.kids[1][0]][I.choose(2, 'node')]
        args = list(af(I, F))
        I.track = True
        try:
            drain(I, I.call(I.getattr_(n, name), args, {}))
        except PyRaise:
            pass
        return F, t0

    def ok(I, v, r):
        F, t0 = v
        ch = changed(I, F, t0)
        if ch:
            fail_changed(ctx, I, r, name, ch, label)
        else:
            ctx.ok()
    explore_into(ctx, prog, run, label, ok)


def viz(fn, extra=()):
    def f(I, g):
        V = I.get(PK + 'visualize', fn)
        return I.call(V, [g.tree] + [e(I, g) for e in extra], {'dst': '/out'})
    return f


def ev(fn):
    def f(I, g):
        d = g.inst(I)
        k, v = ('a', 'v') if I.choose(2, 'target') == 0 or g.kind == 'cobweb' else ('x', N.atom('t.x'))
        if I.choose(2, 'target in instance'):
            d[k] = v
        return I.call(I.get(PK + 'evaluation', fn), [g.tree, mkdict(I, d), k, v], {})
    return f


def tree_call(name, *args, **kw):
    def f(I, g):
        return I.call(I.getattr_(g.tree, name), [mkdict(I, g.inst(I))] + list(args), dict(kw))
    return f


def clus(fn, **kw):
    def f(I, g):
        opaque_heur(I)
        l = PyList(I, [mkdict(I, g.inst(I)) for _ in range(1 if kw.get('mod') else 2)])
        r = I.call(I.get(PK + 'cluster', fn), [g.tree, l], dict(kw))
        return drain(I, r)
    return f


def opaque_heur(I):
    for h in ('CU', 'AIC', 'BIC', 'AICc'):
        I.intercepts[PK + 'cluster.' + h] = lambda I, f, a, k, n: I.fresh('heur')


def mapper(I, g):
    S = I.call(I.get(PK + 'structure_mapper', 'StructureMapper'), [g.root], {})
    d = dict(g.inst(I))
    d[('c', '?z1')] = 'v'
    t = I.call(I.getattr_(S, 'transform'), [mkdict(I, d)], {})
    return I.call(I.getattr_(S, 'undo_transform'), [t], {})


TQ = {
    'categorize': tree_call('categorize'),
    'infer_missing': tree_call('infer_missing'),
    'infer_missing sampled': tree_call('infer_missing', 'sampled', False),
    'evaluation.probability': ev('probability'),
    'evaluation.error': ev('error'),
    'evaluation.absolute_error': ev('absolute_error'),
    'evaluation.squared_error': ev('squared_error'),
    'str(tree)': lambda I, g: I.call(I.getattr_(g.tree, '__str__'), [], {}),
    'cluster': clus('cluster', maxsplit=2, mod=False),
    'cluster (learning)': clus('cluster', maxsplit=1, mod=True),
    'k_cluster': clus('k_cluster', k=2, mod=False),
    'cluster_split_search': clus('cluster_split_search', maxsplit=2, mod=False),
    'cluster_split_search (learning)': clus('cluster_split_search', maxsplit=1, mod=True),
    'cluster_iter': clus('cluster_iter', heuristic='AIC', maxsplit=2, mod=False, labels=False),
    'depth_labels': clus('depth_labels', mod=False),
    'visualize': viz('visualize'),
    'visualize_no_leaves': viz('visualize_no_leaves'),
    'visualize_clusters': viz('visualize_clusters', [lambda I, g: PyList(I, [g.root])]),
    'StructureMapper': mapper,
}
CONC = ('str(tree)', 'cluster', 'cluster (learning)', 'k_cluster', 'cluster_split_search',
        'cluster_split_search (learning)', 'cluster_iter', 'depth_labels', 'visualize', 'visualize_no_leaves',
        'visualize_clusters')


def scen_tree(ctx, prog, kind, name):
    label = '%s of a %s tree' % (name, kind)

    def run(I):
        quick_scores(I)
        if name in CONC:
            opaque_whatif(I)
        spec = {'a': {'v': 'n', '_w': 'n'}}
        if kind != 'cobweb':
            spec['x'] = {CV: CV}
        if kind in ('trestle', 'dummy'):
            spec[('c', '?o7')] = {'v': 'n'}
        conc = name in CONC
        shape = None
        if kind == 'dummy':
            shape = False
        elif conc:
            shape = [[False, False], False] if 'learning' not in name else [False, False]
        g = GTree(I, kind, spec, depth=2, rest=not conc, shape=shape,
                  budget=1 if name.startswith('evaluation') and kind == 'trestle' else 2)
        if kind != 'cobweb':
            for a in ('x',):
                I.dset(tree_scales(I, g.tree), a, cv_object(I, N.atom('S.n', 30, 1e6), N.atom('S.s'),
                                                                  N.atom('S.q', 200), 'S'), raw=True)
        which = I.choose(2, 'instance')

        def inst(I):
            d = dict(inst_of(I, kind, which))
            if kind in ('trestle', 'dummy') and which == 0:
                d['?p'] = mkdict(I, {'c': 'v'})
            return d
        g.inst = inst
        t0 = tree_state(I, g.tree)
        I.track = True
        try:
            TQ[name](I, g)
        except PyRaise:
            pass
        return g, t0

    def ok(I, v, r):
        g, t0 = v
        ch = changed(I, g, t0)
        if ch:
            fail_changed(ctx, I, r, name, ch, label)
        else:
            ctx.ok()
    explore_into(ctx, prog, run, label, ok)


def check(ctx, prog):
    from ..par import run_tasks
    ctx.rule('effect analysis: after every path of every query, each concept, count table, link and scale of the '
             'abstract tree has the value it had before')
    T = []
    for kind in ('cobweb', 'cobweb3', 'trestle', 'dummy'):
        for name in TQ:
            T.append(('tree %s %s' % (kind, name), lambda c, kind=kind, name=name: scen_tree(c, prog, kind, name)))
    for kind in ('cobweb', 'cobweb3'):
        for name, af in node_queries(kind):
            T.append(('node %s %s' % (kind, name), lambda c, kind=kind, name=name, af=af: scen_node(
                c, prog, kind, name, af)))
    run_tasks(ctx, T)
