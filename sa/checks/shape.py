"""C02/C03/C04: learning keeps the tree's counts, links and arity right.

One abstract exploration of ifit on a generic tree and of every public
restructuring operation; each property keeps its own rules.
"""
from .. import num as N
from ..num import Num
from ..values import *
from ..interp import explore
from ..harness import *

SPEC_NOM = {'a': {'v': 'n', 'w': 'n'}}
SPEC_MIX = {'a': {'v': 'n', 'w': 'n'}, 'x': {CV: CV}}


def kids(I, n):
    ch = n.fields.get('children')
    if isinstance(ch, Lazy):
        return None
    if not isinstance(ch, PyList):
        raise Malformed('children is %r' % (ch,))
    I.full(ch)
    return ch._items


def walk(I, root):
    """Reachable nodes: (node, parent, mult, item-is-summary)."""
    out, seen, st = [], set(), [(root, None, False)]
    dup = []
    while st:
        n, p, s = st.pop()
        if not isinstance(n, PyObj):
            raise Malformed('child is %r' % (n,))
        if n.oid in seen:
            dup.append((n, p))
            continue
        seen.add(n.oid)
        out.append((n, p, s))
        ks = kids(I, n)
        if ks:
            for it in ks:
                if isinstance(it, Summ):
                    st.append((it.v, n, True))
                else:
                    st.append((it, n, s))
    return out, dup


def check_tree(I, g, tree, inst_stat, ret, rep, numeric, learned=True):
    """rep(group, rule, msg). Groups: 'count', 'link', 'arity'."""
    root = tree.fields.get('root')
    try:
        nodes, dup = walk(I, root)
    except Malformed as m:
        rep('link', 'tree stays a tree of concepts', str(m))
        return
    for n, p in dup:
        rep('link', 'no concept is reachable twice', '%r is listed under more than one parent (or twice)' % n)
    reach = {n.oid for n, _, _ in nodes}
    # --- links
    if root.fields.get('parent') is not None:
        rep('link', 'the root has no parent', 'root %r has parent %r' % (root, root.fields.get('parent')))
    else:
        rep('link', None, None)
    ids = {}
    for n, p, s in nodes:
        if p is not None:
            if n.fields.get('parent') is not p:
                rep('link', 'a child names its parent', 'concept %r is a child of %r but names %r as its parent' % (
                    n, p, n.fields.get('parent')))
            else:
                rep('link', None, None)
        if n.fields.get('tree') is not tree:
            rep('link', 'a concept names its tree', 'concept %r names tree %r' % (n, n.fields.get('tree')))
        else:
            rep('link', None, None)
        cid = n.fields.get('concept_id')
        h = I.hkey(cid)
        if h in ids:
            rep('link', 'concept ids are unique', 'concepts %r and %r share id %r' % (ids[h], n, cid))
        ids[h] = n
    if learned:
        if not isinstance(ret, PyObj) or ret.oid not in reach:
            rep('link', 'learning returns a concept of the tree', 'returned %r, which is not in the tree' % (ret,))
        elif kids(I, ret):
            rep('link', 'learning returns a leaf', 'returned %r, which has children' % (ret,))
        else:
            rep('link', None, None)
    # --- counts
    path = set()
    x = ret
    while learned and isinstance(x, PyObj) and x.oid not in path:
        path.add(x.oid)
        x = x.fields.get('parent')
    for n, p, s in nodes:
        try:
            st = stat_of(I, n)
        except Malformed as m:
            rep('count', 'count tables keep their structure', str(m))
            continue
        pre = g.init.get(n.oid)
        on = n.oid in path
        if pre is not None:
            want = stat_comb(I, pre, inst_stat) if on else pre
            if differs(I, st, want):
                rep('count', 'an existing concept gains the instance exactly once if it is on the path, else nothing',
                    'concept %r %s: %s' % (n, 'on the path' if on else 'off the path', diff(st, want)))
            else:
                rep('count', None, None)
        ks = kids(I, n)
        if ks:
            tot = None
            for it in ks:
                c = it.v if isinstance(it, Summ) else it
                cs = stat_of(I, c)
                if tot is None:
                    tot = stat_comb(I, _zero(), cs, 1, it.m if isinstance(it, Summ) else None)
                else:
                    tot = stat_comb(I, tot, cs, 1, it.m if isinstance(it, Summ) else None)
            if differs(I, tot, st):
                rep('count', 'a concept counts what its children count together',
                    'concept %r differs from the sum of its children: %s' % (n, diff(st, tot)))
            else:
                rep('count', None, None)
        elif pre is None:
            # new leaf
            if n is ret and learned:
                if differs(I, st, inst_stat):
                    rep('count', 'a new leaf holds exactly the new instance', '%r: %s' % (n, diff(st, inst_stat)))
                else:
                    rep('count', None, None)
            else:
                rep('count', 'no leaf appears besides that of the instance', 'unexpected new leaf %r' % n)
    rpre = g.init.get(g.root.oid)
    if learned:
        want = stat_comb(I, rpre, inst_stat)
        try:
            if differs(I, stat_of(I, root), want):
                rep('count', 'the root gains exactly the instance', diff(stat_of(I, root), want))
        except Malformed as m:
            rep('count', 'count tables keep their structure', str(m))
    # --- arity and retention
    for n, p, s in nodes:
        ks = kids(I, n)
        if ks:
            ln = I._len_items(ks)
            lo = ln if isinstance(ln, int) else max(ln.lo, N.lin_bounds(ln.lin, ln.c)[0])
            if lo < 2:
                rep('arity', 'an internal concept has at least two children',
                    'concept %r can be left with %s child(ren)' % (n, int(lo)))
            else:
                rep('arity', None, None)
    for n in g.nodes:
        if g.materialised(n) and kids(I, n):
            continue
        # a leaf, or a subtree never looked into
        if n.oid not in reach and not _gone(I, g, n, reach):
            rep('arity', 'no concept holding data is dropped', 'concept %r is no longer in the tree' % n)
        else:
            rep('arity', None, None)


def _gone(I, g, n, reach):
    m = n.summ
    return m is not None and I.mult_zero(m)


def _zero():
    s = Stat()
    s.count = N.const(0)
    return s


def differs(I, a, b):
    s = same_stat(I, a, b)
    if s is None:
        I.note('tables agree only under the path condition')
        raise Unsupported('tables agree only under the path condition')
    return not s


def diff(a, b):
    out = []
    if vk(a.count) != vk(b.count):
        out.append('count is %r, expected %r' % (a.count, b.count))
    for k in sorted(set(a.t) | set(b.t), key=str):
        x, y = a.t.get(k), b.t.get(k)
        if (x is None) != (y is None) or tuple(map(vk, x)) != tuple(map(vk, y)):
            out.append('entry %r is %r, expected %r' % (k, x, y))
    return '; '.join(out)[:300]


def scen_ifit(ctx, prog, kind, spec, inst, depth, groups, root_empty=False, shape=None, deadline=None, entry='ifit', budget=2, opaque=False):
    label = 'ifit on a generic %s tree, instance %s' % (kind, sorted(map(str, inst)))
    numeric = kind != 'cobweb'

    def run(I):
        quick_scores(I)
        if opaque:
            opaque_whatif(I)
        g = GTree(I, kind, spec, depth=depth, shape=shape, budget=budget)
        if root_empty:
            n = g.root
            n.fields['count'] = N.const(0)
            n.fields['av_counts'] = PyDict(I)
            n.fields['children'] = PyList(I, [])
            z = Stat()
            z.count = N.const(0)
            g.init[n.oid] = z
        d = {a: (N.atom('i.' + a) if v == 'num' else v) for a, v in inst.items()}
        io = mkdict(I, d)
        io.region = 'init'
        ret = I.call(I.getattr_(g.tree, entry), [io], {})
        return g, d, ret

    def ok(I, v, r):
        g, d, ret = v
        bad = []

        def rep(group, rule, msg):
            if group not in groups:
                return
            if rule is None:
                ctx.ok()
            else:
                bad.append((rule, msg))
        try:
            check_tree(I, g, g.tree, instance_stat(I, d, numeric), ret, rep, numeric)
        except Malformed as m:
            bad.append(('tree stays well formed', str(m)))
        loc = last_loc(r)
        for rule, msg in bad:
            ctx.fail(loc, rule, msg, {'scenario': label, 'choices': trace_of(r), 'function': loc})
        ctx.sample('%s: choices %s' % (label, ' '.join(trace_of(r))[:200]))
    explore_into(ctx, prog, run, label, ok, crash(ctx, groups, label), deadline=deadline)


def crash(ctx, groups, label):
    def f(I, v, r):
        if 'link' in groups:
            ctx.fail(v.fields.get('__where__', '?'), 'learning completes', 'raises %s(%s)' % (
                v.cls.name, desc(v.fields.get('args', ()))), {'scenario': label, 'choices': trace_of(r)})
    return f


def last_loc(r):
    """The functions on the path that restructure, as the construct reported."""
    fs = sorted(f for f in r.I.functions if f.split('.')[-1] in (
        'merge', 'split', 'create_new_child', 'cobweb', 'increment_counts', 'update_counts_from_node', '__init__',
        'ifit', 'create_child_with_current_counts', 'trestle') and 'NodeX' not in f)
    return 'path through ' + ', '.join(x.replace('concept_formation.', '') for x in fs)


def scen_op(ctx, prog, kind, spec, op, groups):
    """One restructuring operation called directly on a generic node."""
    label = '%s on a generic %s concept' % (op, kind)
    numeric = kind != 'cobweb'

    def run(I):
        quick_scores(I)
        pos = I.choose(2, 'inner node?')
        if pos == 0:
            g = GTree(I, kind, spec, depth=2, shape=[None, None])
            n = g.root
        else:
            g = GTree(I, kind, spec, depth=3, shape=[[None, None], False])
            n = I.getattr_(g.root, 'children')._items[0]
        d = {'a': 'v'}
        if numeric:
            d['x'] = N.atom('i.x')
        I.getattr_(n, 'children')
        ch = n.fields['children']._items
        if op == 'merge':
            if not I.decide(I._len_items(ch), 2, frozenset('>'), 'more than two'):
                raise Prune()
            i = I.choose(2, 'which')
            ret = I.call(I.getattr_(n, 'merge'), [ch[i], ch[1 - i]], {})
        elif op == 'split':
            i = I.choose(2, 'which')
            c = ch[i]
            if not I.truth(I.length(I.getattr_(c, 'children'))):
                raise Prune()
            ret = I.call(I.getattr_(n, 'split'), [c], {})
        elif op == 'create_new_child':
            I.call(I.getattr_(n, 'increment_counts'), [mkdict(I, d)], {})
            x = I.getattr_(n, 'parent')
            while x is not None:
                I.call(I.getattr_(x, 'increment_counts'), [mkdict(I, d)], {})
                x = I.getattr_(x, 'parent')
            ret = I.call(I.getattr_(n, 'create_new_child'), [mkdict(I, d)], {})
        return g, d, ret

    def ok(I, v, r):
        g, d, ret = v
        bad = []

        def rep(group, rule, msg):
            if group in groups:
                if rule is None:
                    ctx.ok()
                else:
                    bad.append((rule, msg))
        try:
            if op == 'create_new_child':
                check_tree(I, g, g.tree, instance_stat(I, d, numeric), ret, rep, numeric)
            else:
                check_tree(I, g, g.tree, _zero(), None, rep, numeric, learned=False)
                if op == 'merge' and 'link' in groups:
                    nodes, _ = walk(I, g.tree.fields['root'])
                    if not any(n is ret for n, _, _ in nodes):
                        bad.append(('merging returns the merged concept', 'returned %r, not in the tree' % (ret,)))
        except Malformed as m:
            bad.append(('tree stays well formed', str(m)))
        loc = last_loc(r)
        for rule, msg in bad:
            ctx.fail(loc, rule, msg, {'scenario': label, 'choices': trace_of(r), 'function': loc})
    explore_into(ctx, prog, run, label, ok, crash(ctx, groups, label))


def node_classes(I):
    return [I.get(PK + 'cobweb', 'CobwebNode'), I.get(PK + 'cobweb3', 'Cobweb3Node')]


PRES = [{}, {'a': {'v': 'n'}}, {'a': {'w': 'n'}}, {'a': {'v': 'n', 'w': 'n'}}, {'b': {'u': 'n'}},
        {'a': {'v': 'n'}, 'b': {'u': 'n'}}, {'_h': {'v': 'n'}}]
PRES3 = PRES + [{'x': {CV: CV}}, {'a': {'v': 'n'}, 'x': {CV: CV}}, {'x': {CV: CV, 'v': 'n'}}, {'x': {'v': 'n'}}]


def bare(I, cls, tree, spec, name):
    """A parentless generic node with the given table."""
    st = fresh_stat(I, name, spec)
    n = I.call(cls, [], {})
    known_layout(n, NODE_FIELDS)
    n.tag = name
    n.fields['count'] = st.count
    n.fields['tree'] = tree
    av = PyDict(I)
    GTree.fill(_F(I), av, st, name, None)
    n.fields['av_counts'] = av
    return n, st


class _F(object):
    def __init__(self, I):
        self.I = I


def scen_prims(ctx, prog, groups):
    """increment, update-from, copies: tables as exact sums for every
    combination of presence and absence of attributes and values."""
    label = 'counting primitives'
    insts = [{}, {'a': 'v'}, {'a': 'u'}, {'b': 'v'}, {'a': 'v', 'b': 'v'}, {'_h': 'v'}, {'a': True}]
    insts3 = insts + [{'x': 'num'}, {'a': 'v', 'x': 'num'}, {'x': 7}, {'x': 'v'}, {'x': False}]

    def run(I):
        ci = I.choose(2, 'class')
        cls = node_classes(I)[ci]
        tree = new_tree(I, ('cobweb', 'cobweb3')[ci])
        op = ('increment_counts', 'update_counts_from_node', 'shallow_copy', 'copy', 'with_current')[
            I.choose(5, 'operation')]
        pres = (PRES, PRES3)[ci]
        sp = pres[I.choose(len(pres), 'table')]
        n, st = bare(I, cls, tree, sp, 'n')
        if op == 'increment_counts':
            il = (insts, insts3)[ci]
            d = il[I.choose(len(il), 'instance')]
            d = {a: (N.atom('i.' + a) if v == 'num' else v) for a, v in d.items()}
            I.call(I.getattr_(n, op), [mkdict(I, d)], {})
            return op, [(n, stat_comb(I, st, instance_stat(I, d, ci == 1)))]
        if op == 'update_counts_from_node':
            sp2 = pres[I.choose(len(pres), 'table2')]
            o, st2 = bare(I, cls, tree, sp2, 'o')
            I.call(I.getattr_(n, op), [o], {})
            return op, [(n, stat_comb(I, st, st2)), (o, st2)]
        if op == 'shallow_copy':
            c = I.call(I.getattr_(n, op), [], {})
            return op, [(n, st), (c, st)]
        if op == 'copy':
            c = I.call(cls, [n], {})
            return op, [(n, st), (c, st)]
        c = I.call(I.getattr_(n, 'create_child_with_current_counts'), [], {})
        return op, [(n, st), (c, st)]

    def ok(I, v, r):
        op, pairs = v
        for n, want in pairs:
            try:
                got = stat_of(I, n)
            except Malformed as m:
                ctx.fail(op, 'count tables keep their structure', str(m), {'choices': trace_of(r)})
                continue
            if differs(I, got, want):
                loc = ', '.join(sorted(f for f in I.functions if f.endswith(op) or f.endswith('update_counts_from_node')
                                       or f.endswith('continuous_value.ContinuousValue.update')
                                       or f.endswith('combine'))) or op
                ctx.fail(loc, 'a counting primitive adds exactly its argument', '%s: %s' % (op, diff(got, want)),
                         {'choices': trace_of(r), 'function': loc})
            else:
                ctx.ok()

    def bad(I, v, r):
        ctx.fail(v.fields.get('__where__', '?'), 'counting primitives accept any table', 'raises %s(%s)' % (
            v.cls.name, desc(v.fields.get('args', ()))), {'choices': trace_of(r)})
    if 'count' in groups:
        explore_into(ctx, prog, run, label, ok, bad)


RULES = 'the scale of an attribute has gained exactly the numbers learned under its name'


def scen_scales(ctx, prog, kind, inner, empty, kw):
    """The scales of the tree gain each number of the instance once."""
    from .prep import reporter
    from .mapper import opaque_cost, short_search
    label = 'attribute scales after ifit%s of a %s%s tree, inner_attr_scaling=%s' % (
        ' with mapping' if kw else '', 'new ' if empty else '', kind, inner)

    def run(I):
        quick_scores(I)
        opaque_whatif(I)
        opaque_cost(I)
        short_search(I)
        if empty:
            t = new_tree(I, kind)
        else:
            t = GTree(I, kind, SPEC_MIX, depth=1, rest=False, cvlo=30,
                      shape=False if kind == 'dummy' or I.choose(2, 'leaf?') else (False, False)).tree
        if not inner:
            if 'inner_attr_scaling' not in t.fields:
                raise Unsupported('the setting has another form')
            t.fields['inner_attr_scaling'] = False
        sc = tree_scales(I, t)
        want = {}
        if not empty:
            o = cv_object(I, N.atom('Sx.n', 30, 1e6), N.atom('Sx.s'), N.atom('Sx.q', 200), 'Sx')
            I.dset(sc, 'x', o, raw=True)
            want['x'] = cv_stats(I, o)
        nums = {k: N.atom('i%d' % i) for i, k in enumerate('xyhrsq')}
        flat = {'a': 'v', 'x': nums['x'], 'y': nums['y'], '_h': nums['h'], 'b': True, 's': '7', 'z': 0}
        d = dict(flat)
        if kind == 'cobweb3':
            flat['x', '?o'] = d['x', '?o'] = nums['r']
            flat['w', ('p', '?o')] = d['w', ('p', '?o')] = nums['s']
            flat['_', ('_u', '?o')] = d['_', ('_u', '?o')] = nums['q']
        elif inner:
            d['?o'] = {'x': nums['r'], 'k': 'v', 'w': nums['s'], 'f': False, '_u': nums['q']}
            flat['x', '?o'] = nums['r']
            flat['w', '?o'] = nums['s']
            flat['_', ('_u', '?o')] = nums['q']
        for a, v in flat.items():
            if not isinstance(v, (bool, str)):
                k = a[0] if isinstance(a, tuple) and inner else a
                x = I.num(v)
                s = (N.const(1), x, N.mul(x, x))
                want[k] = tuple(N.add(p, q) for p, q in zip(want[k], s)) if k in want else s
        early = []

        def placed(I, kind, f, env, r):
            if kind == 'enter' and not early:
                early.append({k: cv_stats(I, I.dget(tree_scales(I, t), k)) for k, _ in list(tree_scales(I, t).d.values())})
        for q in ('cobweb.CobwebNode', 'cobweb3.Cobweb3Node'):
            for m in ('two_best_children', 'is_exact_match', 'get_best_operation'):
                I.observers[PK + q + '.' + m] = placed
        I.call(I.getattr_(t, 'ifit'), [mk(I, d)], dict(kw))
        sc = tree_scales(I, t)
        for e in early:
            for k, w in want.items():
                if k not in e or not all(same(I, p, q) is not False for p, q in zip(e[k], w)):
                    return 'the instance is placed before the scale of %r knows its value' % (k,)
        for k, _ in list(sc.d.values()):
            o = I.dget(sc, k)
            if not isinstance(o, PyObj):
                raise Unsupported('attribute scales have another form')
            if k not in want:
                if not same(I, I.getattr_(o, 'num'), 0):
                    return '%r has a scale' % (k,)
                continue
            got = cv_stats(I, o)
            for p, q, nm in zip(got, want.pop(k), ('number', 'sum', 'sum of squares')):
                s = same(I, p, q)
                if s is None:
                    raise Unsupported('equal only under path conditions')
                if not s:
                    return 'the %s of the values of %r is %r instead of %r' % (nm, k, p, q)
        return 'no scale of %r' % (sorted(want, key=str)[0],) if want else None
    ok, bad = reporter(ctx, RULES, label, 'ifit')
    explore_into(ctx, prog, run, label, ok, bad)


def check(ctx, prog, groups):
    from ..par import run_tasks
    T = []

    def add(name, fn, *a, **k):
        T.append((name, lambda c: fn(c, prog, *a, **k)))
    I3 = {'a': 'v', 'x': 'num'}
    add('ifit cobweb3 d2', scen_ifit, 'cobweb3', SPEC_MIX, I3, 2, groups, opaque=True)
    add('ifit cobweb d2', scen_ifit, 'cobweb', SPEC_NOM, {'a': 'v'}, 2, groups, opaque=True)
    if ctx.thorough:
        add('ifit cobweb d3', scen_ifit, 'cobweb', SPEC_NOM, {'a': 'v'}, 3, groups, opaque=True, budget=3)
        add('ifit cobweb d2 full', scen_ifit, 'cobweb', SPEC_NOM, {'a': 'v'}, 2, groups)
        add('ifit cobweb3 d2 full', scen_ifit, 'cobweb3', SPEC_MIX, I3, 2, groups)
    add('ifit cobweb d1', scen_ifit, 'cobweb', SPEC_NOM, {'a': 'v'}, 1, groups)
    add('ifit cobweb d1 new', scen_ifit, 'cobweb', SPEC_NOM, {'a': 'u', 'b': 'v', '_h': 'v'}, 1, groups)
    add('ifit cobweb3 d1', scen_ifit, 'cobweb3', SPEC_MIX, I3, 1, groups)
    add('ifit cobweb3 d1 new', scen_ifit, 'cobweb3', SPEC_MIX, {'a': 'v', 'y': 'num', '_h': 'num'}, 1, groups)
    add('ifit cobweb3 d1 mixed', scen_ifit, 'cobweb3', SPEC_MIX, {'a': 'num', 'x': 'v'}, 1, groups)
    for k, sp in (('cobweb', SPEC_NOM), ('cobweb3', SPEC_MIX)):
        add('ifit %s nothing' % k, scen_ifit, k, sp, {}, 1, groups, opaque=True)
        add('ifit %s hidden' % k, scen_ifit, k, sp, {'_h': 'v'}, 1, groups, opaque=True)
    add('ifit trestle d1', scen_ifit, 'trestle', SPEC_MIX, I3, 1, groups)
    for k in ('cobweb', 'cobweb3', 'trestle'):
        add('first ' + k, scen_ifit, k, {'a': {'v': 'n'}}, {'a': 'v', 'b': 'u'}, 0, groups, root_empty=True)
    for k, sp in (('cobweb', SPEC_NOM), ('cobweb3', SPEC_MIX)):
        for op in ('merge', 'split', 'create_new_child'):
            add(op + ' ' + k, scen_op, k, sp, op, groups)
    add('primitives', scen_prims, groups)
    if 'count' in groups:
        for k in ('cobweb3', 'trestle', 'dummy'):
            for empty in (False, True):
                add('scales %s %s' % (k, empty), scen_scales, k, True, empty, {})
        add('scales dummy mapping', scen_scales, 'dummy', True, False, {'do_mapping': True})
        add('scales cobweb3 plain', scen_scales, 'cobweb3', False, False, {})
        add('scales trestle plain', scen_scales, 'trestle', False, False, {})
    run_tasks(ctx, T)
