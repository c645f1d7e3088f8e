"""C09: concepts and copies own their data.  C19: data of the caller.
C22: trees do not influence each other."""
from .. import num as N
from ..values import *
from ..harness import *
from .scores import conv
from .life import struct, sdiff, used_tree, KINDS
from .pure import drain, opaque_heur

RULE9 = 'a copy equals its original and shares no data with it'
SPEC = {'cobweb': {'a': {'v': 'n', 'w': 'n'}, '_h': {'v': 'n'}},
        'cobweb3': {'a': {'v': 'n', 'w': 'n'}, 'x': {CV: CV}, '_h': {'v': 'n', CV: CV}}}


def nodes_of(I, n):
    """The concepts below n in order."""
    out, st = [], [n]
    while st:
        x = st.pop()
        if not isinstance(x, PyObj) or 'av_counts' not in x.fields:
            raise Unsupported('children are not concepts')
        if any(x is y for y in out):
            continue
        out.append(x)
        ch = I.getattr_(x, 'children')
        if not isinstance(ch, PyList):
            raise Unsupported('children have another form')
        I.full(ch)
        st += list(reversed(ch._items))
    return out


def shot(I, nodes, ids=True):
    """Observable state of concepts: counts, tables, links by position."""
    pos = {n.oid: i for i, n in enumerate(nodes)}

    def ref(o):
        if isinstance(o, PyObj):
            return pos.get(o.oid, ('other', o.oid))
        return o
    out = []
    for n in nodes:
        f = n.fields
        ch = I.getattr_(n, 'children')
        I.full(ch)
        s = {'count': deep(I, f['count']), 'counts table': deep(I, f['av_counts']), 'parent': ref(f['parent']),
             'children': tuple(ref(c) for c in ch._items), 'tree': f['tree'].oid if isinstance(f['tree'], PyObj) else None}
        if ids:
            s['id'] = deep(I, f['concept_id'])
        out.append(s)
    return out


def mutate(I, n, kind, what):
    """Change concept n through the public interface."""
    inst = {'a': 'v', '_h': 'v', 'b': 'new'}
    if kind != 'cobweb':
        inst['x'] = N.atom('mut.x')
        inst['_h'] = N.atom('mut.h')
    d = mkdict(I, inst)
    if what == 0:
        I.call(I.getattr_(n, 'increment_counts'), [d], {})
    elif what == 1:
        o = I.call(n.cls, [], {})
        I.call(I.getattr_(o, 'increment_counts'), [d], {})
        I.call(I.getattr_(n, 'update_counts_from_node'), [o], {})
    else:
        I.call(I.getattr_(n, 'create_new_child'), [d], {})


def scales_apart(I, t1, t2):
    """The scales of two trees are equal and changing either leaves the other."""
    a, b = tree_scales(I, t1), tree_scales(I, t2)
    if deep(I, a) != deep(I, b):
        return 'the attribute scales differ'
    one, two = (t1, t2) if I.choose(2, 'scales changed') else (t2, t1)
    s0 = deep(I, tree_scales(I, two))
    try:
        f = I.getattr_(one, 'update_scales')
    except PyRaise:
        return None
    I.call(f, [mkdict(I, {'x': N.atom('mut.sx'), 'new': N.atom('mut.sn')})], {})
    if deep(I, tree_scales(I, two)) != s0:
        return 'learning a number into one tree changes the attribute scales of the other'
    return None


def copy_scen(ctx, prog, kind, how):
    label = '%s of a %s concept' % (how, kind)

    def run(I):
        quick_scores(I)
        g = GTree(I, kind, SPEC[kind], depth=2, rest=False, cvlo=30, shape=[[False, False], False])
        allo = nodes_of(I, g.root)
        n = allo[I.choose(3, 'concept')]
        below = nodes_of(I, n)
        if how == 'shallow copy':
            below = [n]
        s0 = shot(I, allo)
        tree2 = None
        if how == 'copy':
            c = I.call(n.cls, [n], {})
        elif how == 'shallow copy':
            c = I.call(I.getattr_(n, 'shallow_copy'), [], {})
        else:
            sc = tree_scales(I, g.tree, False)
            if sc is not None:
                for a in ('x', '_h'):
                    I.dset(sc, a, cv_object(I, N.atom('S%s.n' % a, 2, 1e6), N.atom('S%s.s' % a), N.atom('S%s.q' % a, 200), 'S' + a), raw=True)
            tree2 = I.call(I.bi.external(I, 'copy', 'deepcopy'), [g.tree], {})
            if not isinstance(tree2, PyObj):
                raise Unsupported('deep copy has another form')
            below = allo
            n = g.root
            c = I.getattr_(tree2, 'root')
            if sc is not None:
                m = scales_apart(I, g.tree, tree2)
                if m:
                    return m
        if not isinstance(c, PyObj):
            return 'the copy is %r' % (c,)
        if shot(I, allo) != s0:
            return 'copying changes the original'
        cn = nodes_of(I, c)
        if len(cn) != len(below):
            return 'the copy has %d concepts instead of %d' % (len(cn), len(below))
        for x, y in zip(cn, below):
            if any(x is z for z in allo):
                return 'concept %s is part of both' % y.tag
            if x.cls is not y.cls:
                return 'concept %s has another type' % y.tag
            for f in ('count', 'av_counts'):
                if deep(I, x.fields[f]) != deep(I, y.fields[f]):
                    return 'the counts of concept %s differ: %s' % (y.tag, f)
            want = tree2 if tree2 is not None else g.tree
            if x.fields['tree'] is not want:
                return 'the copy of concept %s names another tree' % y.tag
            if how != 'shallow copy':
                if [cn.index(k) for k in x.fields['children']._items] != [below.index(k) for k in y.fields['children']._items]:
                    return 'the children of concept %s differ' % y.tag
            if x is not c:
                p = [q for q in cn if any(k is x for k in q.fields['children']._items)]
                if x.fields['parent'] is not p[0]:
                    return 'the copy of concept %s names a parent outside the copy' % y.tag
            else:
                if tree2 is not None and x.fields['parent'] is not None:
                    return 'the root of the copy has a parent'
                if tree2 is None and x.fields['parent'] is not y.fields['parent']:
                    return 'the copy of concept %s names another parent' % y.tag
        ids = [deep(I, x.fields['concept_id']) for x in cn]
        if len(set(ids)) != len(ids):
            return 'concepts of the copy share an id'
        if tree2 is None and set(ids) & {deep(I, x.fields['concept_id']) for x in allo}:
            return 'the copy takes over an id of the original'
        # changing either side leaves the other as it was
        k = I.choose(3, 'change')
        w = I.choose(len(cn), 'changed concept')
        side = I.choose(2, 'side')
        c0, s0 = shot(I, cn), shot(I, allo)
        if side == 0:
            mutate(I, cn[w], kind, k)
            if shot(I, allo) != s0:
                return 'changing the copy of concept %s changes the original' % below[w].tag
        else:
            mutate(I, below[w], kind, k)
            if shot(I, cn) != c0:
                return 'changing concept %s changes its copy' % below[w].tag
        return None

    def ok(I, v, r):
        if v is None:
            ctx.ok()
        else:
            ctx.fail('%s (%s)' % (how, kind), RULE9, '%s: %s' % (label, v), {'choices': trace_of(r)})

    def bad(I, v, r):
        ctx.fail(v.fields.get('__where__', '?'), RULE9, '%s: raises %s(%s)' % (label, v.cls.name, desc(
            v.fields.get('args', ()))), {'choices': trace_of(r)})
    explore_into(ctx, prog, run, label, ok, bad)


RULE9B = 'every concept owns its counts: learning into one concept changes no other'
OPS = ('create_new_child', 'create_child_with_current_counts', 'merge', 'split', 'update_counts_from_node', 'ifit leaf',
       'ifit root')


def owned_scen(ctx, prog, kind, op):
    label = 'after %s (%s)' % (op, kind)

    def run(I):
        quick_scores(I)
        opaque_whatif(I)
        shape = [[False, False], False, False]
        if op in ('ifit leaf',):
            shape = False
        elif op == 'create_child_with_current_counts':
            shape = False
        g = GTree(I, kind, SPEC[kind], depth=2, rest=False, cvlo=30, shape=shape)
        if kind != 'cobweb':
            for a in ('x', '_h'):
                I.dset(tree_scales(I, g.tree), a, cv_object(I, N.atom('S%s.n' % a, 30, 1e6), N.atom('S%s.s' % a),
                                                                  N.atom('S%s.q' % a, 200), 'S' + a), raw=True)
        r = g.root
        ch = nodes_of(I, r)
        kids = r.fields['children']
        k = list(I.getattr_(r, 'children')._items)
        d = {'a': 'w', 'n': 'new'}
        if kind != 'cobweb':
            d['x'] = N.atom('i.x')
            d['y'] = N.atom('i.y')
        inst = mkdict(I, d)
        extra = []
        m = lambda nm, *a: I.call(I.getattr_(r, nm), list(a), {})
        if op == 'create_new_child':
            m(op, inst)
        elif op == 'create_child_with_current_counts':
            m(op)
        elif op == 'merge':
            m('merge', k[0], k[1])
        elif op == 'split':
            m('split', k[0])
        elif op == 'update_counts_from_node':
            o = I.call(r.cls, [], {})
            I.call(I.getattr_(o, op), [k[0]], {})
            if I.choose(2, 'second'):
                I.call(I.getattr_(o, op), [k[1]], {})
            extra = [o]
        else:
            I.call(I.getattr_(g.tree, 'ifit'), [inst], {})
        r = I.getattr_(g.tree, 'root')
        nodes = nodes_of(I, r) + extra
        for w in range(len(nodes)):
            s0 = shot(I, nodes)
            sc0 = deep(I, tree_scales(I, g.tree, False))
            mutate(I, nodes[w], kind, 0)
            s1 = shot(I, nodes)
            for i, n in enumerate(nodes):
                if i != w and s0[i] != s1[i]:
                    return 'learning into concept %s also changes concept %s' % (nodes[w].tag or w, n.tag or i)
            if deep(I, tree_scales(I, g.tree, False)) != sc0:
                return 'learning into concept %s also changes the scales' % (nodes[w].tag or w)
        # a change of the instance learned does not reach the tree
        s0 = shot(I, nodes)
        I.dset(inst, 'a', 'zzz', raw=True)
        I.dset(inst, 'later', 'zzz', raw=True)
        if shot(I, nodes) != s0:
            return 'changing the learned instance later changes the tree'
        return None

    def ok(I, v, r):
        if v is None:
            ctx.ok()
        else:
            ctx.fail('%s (%s)' % (op, kind), RULE9B, '%s: %s' % (label, v), {'choices': trace_of(r)})
    explore_into(ctx, prog, run, label, ok)


def check_copy(ctx, prog):
    from ..par import run_tasks
    ctx.rule('structure and counts of copies compared on abstract heaps; each concept of either side is changed through the '
             'public interface and the other side compared before and after')
    T = []
    for kind in ('cobweb', 'cobweb3'):
        for how in ('copy', 'shallow copy', 'deep copy'):
            T.append(('%s %s' % (kind, how), lambda c, kind=kind, how=how: copy_scen(c, prog, kind, how)))
        for op in OPS:
            T.append(('%s %s' % (kind, op), lambda c, kind=kind, op=op: owned_scen(c, prog, kind, op)))
    run_tasks(ctx, T)


# --------------------------------------------------------------------- C19
RULE19 = 'arguments belong to the caller: they are not changed, and changing them later does not reach the tree'


def insts(I, kind, n):
    A = [{'a': 'v', '_h': 'q'}, {'a': 'w', 'b': 'new'}, {}]
    if kind != 'cobweb':
        A = [{'a': 'v', '_h': 'q', 'x': N.atom('i.x')}, {'x': N.const(2.0), 'b': 'new', '_g': N.atom('i.g')}, {'a': True}]
    if kind in ('trestle', 'dummy'):
        A[0]['?p'] = {'c': 'v', '?q': {'d': 'u'}}
        A[1][('r', '?s')] = 'yes'
        A[1]['?s'] = {'c': 'w'}
    return [mk(I, A[(n + i) % 3]) for i in range(3)]


def scramble(I, v, seen=None):
    """Change every mutable part of v (not entering concepts and trees)."""
    seen = seen if seen is not None else set()
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, PyDict):
        for k, _ in list(v.d.values()):
            x = I.dget(v, k)
            if isinstance(x, (PyDict, PyList)):
                scramble(I, x, seen)
            elif isinstance(x, tuple):
                for y in x:
                    scramble(I, y, seen)
            elif isinstance(x, PyObj):
                scramble(I, x, seen)
            else:
                I.dset(v, k, 'scrambled', raw=True)
        I.dset(v, '#scrambled', 'z', raw=True)
    elif isinstance(v, PyList):
        I.full(v)
        for x in v._items:
            scramble(I, x, seen)
        v._items.append('scrambled')
    elif isinstance(v, tuple):
        for x in v:
            scramble(I, x, seen)
    elif isinstance(v, PyObj) and 'meanSq' in v.fields:
        v.fields['mean'] = N.atom('scrambled')


def stub_ifit(I):
    """Learning itself is analysed on its own: any leaf can be returned."""
    def learn(I, f, args, kw, node):
        n = I.getattr_(args[0], 'root')
        while True:
            ch = I.getattr_(n, 'children')
            I.full(ch)
            if not ch._items:
                return n
            n = ch._items[I.choose(len(ch._items), 'leaf')]
    for q in ('cobweb.CobwebTree', 'cobweb3.Cobweb3Tree', 'trestle.TrestleTree', 'dummy.DummyTree'):
        I.intercepts[PK + q + '.ifit'] = learn


def call19(I, g, op, il, ref):
    t = g.tree
    if op not in ('ifit', 'categorize', 'infer_missing'):
        stub_ifit(I)
    T = lambda nm, *a, **k: I.call(I.getattr_(t, nm), list(a), k)
    E = lambda nm, *a, **k: I.call(I.get(PK + 'evaluation', nm), list(a), k)
    C = lambda nm, *a, **k: I.call(I.get(PK + 'cluster', nm), list(a), k)
    if op in ('ifit', 'categorize'):
        return T(op, il[0])
    if op == 'infer_missing':
        return T(op, il[0], *[(), ('sampled', False)][I.choose(2, 'options')])
    if op == 'fit':
        ref.append(PyList(I, il[:2]))
        return T(op, ref[0], **[{}, {'iterations': 2, 'randomize_first': False}][I.choose(2, 'options')])
    if op in ('probability', 'error', 'absolute_error', 'squared_error'):
        a, v = [('a', 'v'), ('x', N.atom('t')), ('_h', 'q'), ('zz', 'q')][I.choose(4, 'target')]
        return E(op, t, il[0], a, v)
    if op == 'incremental_evaluation':
        ref.append(PyList(I, il[:2]))
        return E(op, t, ref[0], 'a', 2, **[{}, {'runs': 2, 'randomize_first': False}][I.choose(2, 'options')])
    opaque_heur(I)
    ref.append(PyList(I, il[:2]))
    mod = bool(I.choose(2, 'learning'))
    if op == 'depth_labels':
        return C(op, t, ref[0], mod=mod)
    if op == 'k_cluster':
        return C(op, t, ref[0], k=2, mod=mod)
    return drain(I, C(op, t, ref[0], maxsplit=1, mod=mod))


OPS19 = ('ifit', 'categorize', 'infer_missing', 'fit', 'probability', 'error', 'absolute_error', 'squared_error',
         'incremental_evaluation', 'cluster', 'k_cluster', 'cluster_split_search', 'cluster_iter', 'depth_labels')


def arg_scen(ctx, prog, kind, op):
    label = '%s with a %s tree' % (op, kind)

    def run(I):
        quick_scores(I)
        opaque_whatif(I)
        g = used_tree(I, kind, {}, shape=(False, False), cvlo=30)
        il = insts(I, kind, I.choose(3 if op in ('ifit', 'infer_missing', 'categorize') else 2, 'instance'))
        snap = [deep(I, x) for x in il]
        order = [[x for x, _ in i.d.values()] for i in il]
        ref = []
        try:
            res = call19(I, g, op, il, ref)
        except PyRaise as e:
            ctx.count('paths of %s that raise %s' % (op, e.exc.cls.name))
            res = None
        if [deep(I, x) for x in il] != snap:
            return 'the instance passed in is changed'
        if [[x for x, _ in i.d.values()] for i in il] != order:
            return 'the attributes of the instance passed in are reordered'
        if ref:
            I.full(ref[0])
            if len(ref[0]._items) != 2 or any(x is not y for x, y in zip(ref[0]._items, il)):
                return 'the list passed in is changed'
        t = g.tree
        nodes = nodes_of(I, I.getattr_(t, 'root'))
        s0, t0 = shot(I, nodes), tree_state(I, t)
        r0 = deep(I, res)
        seen = set()
        for x in il + ref:
            scramble(I, x, seen)
        if shot(I, nodes) != s0 or tree_state(I, t) != t0:
            return 'changing the arguments afterwards changes the tree'
        if op == 'infer_missing' and deep(I, res) != r0:
            return 'changing the instance afterwards changes the answer'
        if not isinstance(res, PyObj):
            scramble(I, res)
            if shot(I, nodes) != s0 or tree_state(I, t) != t0:
                return 'changing the answer changes the tree'
        return None

    def ok(I, v, r):
        if v is None:
            ctx.ok()
        else:
            ctx.fail('%s (%s)' % (op, kind), RULE19, '%s: %s' % (label, v), {'choices': trace_of(r)})
    explore_into(ctx, prog, run, label, ok, lambda I, v, r: ctx.ok())


NODEQ = ('output_json', 'get_weighted_values', 'two_best_children')


def export_scen(ctx, prog, kind, op):
    label = '%s of a %s concept' % (op, kind)

    def run(I):
        quick_scores(I)
        g = GTree(I, kind, SPEC[kind], depth=2, rest=False, cvlo=30, shape=[[False, False], False])
        r = g.root
        nodes = nodes_of(I, r)
        d = mkdict(I, {'a': 'v'})
        args = {'output_json': [], 'get_weighted_values': [['a', '_h', 'x'][I.choose(3, 'attribute')]],
                'two_best_children': [d]}[op]
        n = nodes[I.choose(2, 'concept')]
        s0 = shot(I, nodes)
        res = I.call(I.getattr_(n, op), args, {})
        scramble(I, res)
        if shot(I, nodes) != s0:
            return 'changing the answer changes the tree'
        return None

    def ok(I, v, r):
        if v is None:
            ctx.ok()
        else:
            ctx.fail('%s (%s)' % (op, kind), RULE19, '%s: %s' % (label, v), {'choices': trace_of(r)})
    explore_into(ctx, prog, run, label, ok, lambda I, v, r: ctx.ok())


def node_arg_scen(ctx, prog, kind, op):
    label = '%s of a %s concept' % (op, kind)

    def run(I):
        quick_scores(I)
        g = GTree(I, kind, SPEC[kind], depth=2, rest=False, cvlo=30, shape=[[False, False], False, False])
        r = g.root
        ks = list(I.getattr_(r, 'children')._items)
        inst = insts(I, kind, I.choose(3, 'instance'))[0]
        snap = deep(I, inst)
        order = [x for x, _ in inst.d.values()]
        args = {'cu_for_insert': [ks[0], inst], 'relative_cu_for_insert': [ks[0], inst],
                'cu_for_merge': [ks[0], ks[1], inst],
                'get_best_operation': [inst, ks[0], ks[1], N.atom('b')]}.get(op, [inst])
        n = r
        if op in ('is_exact_match', 'cu_for_fringe_split', 'increment_counts'):
            n = ks[1]
        try:
            I.call(I.getattr_(n, op), args, {})
        except PyRaise:
            pass
        if deep(I, inst) != snap or [x for x, _ in inst.d.values()] != order:
            return 'the instance passed in is changed'
        return None

    def ok(I, v, r):
        if v is None:
            ctx.ok()
        else:
            ctx.fail('%s (%s)' % (op, kind), RULE19, '%s: %s' % (label, v), {'choices': trace_of(r)})
    explore_into(ctx, prog, run, label, ok, lambda I, v, r: ctx.ok())


def check_args(ctx, prog):
    from ..par import run_tasks
    ctx.rule('arguments compared before and after every path of every entry point; then every mutable part of arguments and answer '
             'is overwritten and the abstract tree compared')
    T = []
    for kind in KINDS:
        for op in OPS19:
            T.append(('%s %s' % (kind, op), lambda c, kind=kind, op=op: arg_scen(c, prog, kind, op)))
    from .export import trim_scen
    for kind in ('cobweb', 'trestle'):
        T.append(('clusters ' + kind, lambda c, kind=kind: trim_scen(c, prog, kind, 'visualize_clusters', True)))
    for kind in ('cobweb', 'cobweb3'):
        for op in NODEQ:
            T.append(('%s %s' % (kind, op), lambda c, kind=kind, op=op: export_scen(c, prog, kind, op)))
        for op in ('increment_counts', 'create_new_child', 'cu_for_insert', 'relative_cu_for_insert', 'cu_for_new_child',
                   'cu_for_merge', 'cu_for_fringe_split', 'compute_relative_CU_const', 'two_best_children',
                   'is_exact_match', 'get_best_operation'):
            T.append(('%s %s' % (kind, op), lambda c, kind=kind, op=op: node_arg_scen(c, prog, kind, op)))
    run_tasks(ctx, T)
