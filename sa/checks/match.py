"""C07: two instances share a leaf exactly when they agree on every visible
attribute.  C08: hidden attributes never influence concept formation."""
from .. import num as N
from ..values import *
from ..harness import *
from .scores import Flat, INSTS, OPS, A, A2, A3, X, X2, XO, OBJ, conv, visible
from .choice import hook

NOM = [{}, {'a': {'v': 'n'}}, {'a': {'v': 'n', 'w': 'n'}}, {'a': {'v': 'n'}, 'b': {'u': 'n'}},
       {'a': {'v': 'n'}, '_h': {'v': 'n'}}, {'_h': {'v': 'n', 'w': 'n'}},
       {('r', '?o1', '?o2'): {'v': 'n'}}, {('_', ('_g', '?o')): {'v': 'n'}, 'a': {'v': 'n'}}]
NUMT = NOM + [{'x': {CV: CV}}, {'x': {CV: CV}, 'a': {'v': 'n'}}, {'x': {CV: CV, 'v': 'n'}}, {'x': {'v': 'n'}},
              {'_h': {CV: CV}, 'x': {CV: CV}}, {('x', '?o1'): {CV: CV}}]
INOM = [{}, {'a': 'v'}, {'a': 'w'}, {'a': 'q'}, {'a': 'v', 'b': 'u'}, {'b': 'u'}, {'a': 'v', '_h': 'v'},
        {'_h': 'q'}, {'a': 'v', 'b': 'q'}, {('r', '?o1', '?o2'): 'v'}, {('r', '?o2', '?o1'): 'v'},
        {'a': 'v', ('_', ('_g', '?o')): 'q'}]
INUM = INOM + [{'x': 'num'}, {'x': 'v'}, {'x': 'num', 'a': 'v'}, {'x': 'num', '_h': 'num'}, {'a': 'num'}, {'x': True},
               {'x': 0}, {('x', '?o1'): 'num'}]


def cond_list(I, n, st, d, numeric):
    """The conditions (value, expected constant) under which instance d
    matches the table exactly; None if it cannot match."""
    attrs = {a for a, _ in st.t if visible(a)} | {a for a in d if visible(a)}
    out = []
    for a in sorted(attrs, key=str):
        vals = {v for b, v in st.t if b == a}
        if a not in d or not vals:
            return None
        x = d[a]
        isnum = numeric and (isinstance(x, Num) or (isinstance(x, int) and not isinstance(x, bool)))
        if isnum:
            if vals != {CV}:
                return None
            cn, s, q = st.t[a, CV]
            cv = I.dget(I.dget(n.fields['av_counts'], a), CV)
            out.append((cn, st.count))
            out.append(('std', cv))
            out.append((I.num(I.getattr_(cv, 'mean')), I.num(x)))
        else:
            if tkey(x) not in vals:
                return None
            out.append((st.t[a, tkey(x)][0], st.count))
    return out


def status(I, conds):
    """True / False / None (open) on this path."""
    if conds is None:
        return False
    res = True
    for a, b in conds:
        if isinstance(a, str):
            n, ms = I.num(b.fields['num']), I.num(b.fields['meanSq'])
            r = I.cmp_rel(n, 2)
            if r == frozenset('<'):
                continue
            sd = N.sqrt(N.div(ms, N.add(n, N.const(1), -1)))
            zs = [I.cmp_rel(ms, 0), I.cmp_rel(sd, 0)]
            zs.append(I.cmp_rel(N.div(ms, N.add(n, N.const(1), -1)), 0))
            for nn in (n,):
                try:
                    t = len(I.trace)
                    u = I.num(I.call(I.getattr_(b, 'unbiased_std'), [], {}))
                    if len(I.trace) == t:
                        zs.append(I.cmp_rel(u, 0))
                except PyRaise:
                    pass
            if frozenset('=') in zs:
                continue
            if any('=' not in z for z in zs):
                return False
            res = None
            continue
        r = I.cmp_rel(I.num(a), I.num(b))
        if r == frozenset('='):
            continue
        if '=' not in r:
            return False
        res = None
    return res


def scen_match(ctx, prog, kind, ti, regime):
    numeric = kind == 'cobweb3'
    tabs = NUMT if numeric else NOM
    insts = INUM if numeric else INOM
    label = 'is_exact_match of a %s concept with table %s' % (kind, sorted(map(str, tabs[ti])))

    def run(I):
        d = insts[I.choose(len(insts), 'instance')]
        d = {a: (N.atom('i.' + str(a)) if v == 'num' else v) for a, v in d.items()}
        tree = new_tree(I, kind)
        cls = I.getattr_(I.getattr_(tree, 'root'), '__class__')
        from .scores import rstat
        st = rstat(I, 'n', tabs[ti], regime)
        n = I.call(cls, [], {})
        n.tag = 'n'
        n.fields['count'] = st.count
        n.fields['tree'] = tree
        av = PyDict(I)
        GTree.fill(_F(I), av, st, 'n', None)
        n.fields['av_counts'] = av
        r = I.call(I.getattr_(n, 'is_exact_match'), [mkdict(I, d)], {})
        return n, st, d, I.truth(r)

    def ok(I, v, r):
        n, st, d, res = v
        w = status(I, cond_list(I, n, st, d, numeric))
        if w is res:
            ctx.ok()
            return
        ctx.fail('%sNode.is_exact_match' % kind.capitalize(),
                 'a leaf matches an instance exactly when every visible attribute has that one value throughout',
                 'table %s, instance %s: answers %s although the match is %s' % (
                     sorted(map(str, st.t)), sorted(map(str, d.items())), res, {None: 'open', True: 'exact',
                                                                                False: 'not exact'}[w]),
                 {'choices': trace_of(r), 'function': 'is_exact_match'})

    def bad(I, v, r):
        ctx.fail(v.fields.get('__where__', '?'), 'matching is total', '%s: raises %s(%s)' % (
            label, v.cls.name, desc(v.fields.get('args', ()))), {'choices': trace_of(r)})
    explore_into(ctx, prog, run, label, ok, bad)


class _F(object):
    def __init__(self, I):
        self.I = I


def scen_leaf(ctx, prog, kind, sub, real=False):
    """A leaf absorbs the instance iff it matches exactly (or is empty)."""
    label = 'ifit reaching a leaf of a %s tree' % kind

    def run(I):
        quick_scores(I)
        opaque_whatif(I)
        g = GTree(I, kind, {'a': {'v': 'n'}}, depth=1, shape=[False, False] if sub else False)
        empty = False
        if not sub:
            empty = I.choose(2, 'empty') == 1
            if empty:
                g.root.fields['count'] = N.const(0)
                g.root.fields['av_counts'] = PyDict(I)
        asked = []
        il = [{'a': 'v'}, {}, {'_h': 'v'}, {'b': 'u'}, {'a': 'w'}, {'a': 'v', '_h': 'q'}, {'a': 'v', 'b': 'u'}, {'a': True}]
        d = il[I.choose(len(il), 'instance')]
        if real:
            ans = {k: v for k, v in d.items() if k[0] != '_'} == {'a': 'v'}
        else:
            ans = I.choose(2, 'exact match') == 0

        def em(I, f, args, kw, node):
            asked.append(args[0])
            return ans
        if not real:
            hook(I, 'is_exact_match', em)
        if sub:
            first = []

            def two(I, f, args, kw, node):
                c = I.getattr_(args[0], 'children')._items
                first.append(args[0])
                return (I.fresh('cu'), c[0], c[1])
            hook(I, 'two_best_children', two)
            hook(I, 'get_best_operation', lambda I, f, a, k, n: (I.fresh('cu'), 'best'))
        target = I.getattr_(g.root, 'children')._items[0] if sub else g.root
        par = target.fields.get('parent')
        if real and not empty:
            n = [1, 4, 40][I.choose(3, 'size')]
            target.fields['count'] = N.const(n)
            target.fields['av_counts'] = mkdict(I, {'a': mkdict(I, {'v': N.const(n)})})
        io = mkdict(I, d)
        ret = I.call(I.getattr_(g.tree, 'ifit'), [io], {})
        return g, target, par, ret, ans, empty, asked

    def ok(I, v, r):
        g, t, par, ret, ans, empty, asked = v
        if not real and not empty and t not in asked:
            raise Unsupported('leaves are matched another way')
        absorb = ans or empty
        if absorb:
            if ret is not t or t.fields.get('parent') is not par or I.length(I.getattr_(t, 'children')) != 0:
                fail(r, 'a matching (or empty) leaf absorbs the instance', 'leaf %r, returned %r' % (t, ret))
            else:
                ctx.ok()
            return
        if ret is t:
            fail(r, 'a leaf that does not match is not given the instance', 'leaf %r was returned' % t)
            return
        p = ret.fields.get('parent')
        ks = I.getattr_(p, 'children') if isinstance(p, PyObj) else None
        if ks is None or p is par or len(ks._items) != 2 or t not in ks._items or ret not in ks._items:
            fail(r, 'a leaf that does not match becomes the sibling of the new leaf', 'leaf %r, returned %r under %r' % (
                t, ret, p))
        else:
            ctx.ok()

    def fail(r, rule, msg):
        ctx.fail('cobweb (fringe)', rule, '%s: %s' % (label, msg), {'choices': trace_of(r), 'function': 'cobweb'})

    def bad(I, v, r):
        ctx.fail(v.fields.get('__where__', '?'), 'a leaf is always handled', 'raises %s(%s)' % (
            v.cls.name, desc(v.fields.get('args', ()))), {'scenario': label, 'choices': trace_of(r)})
    explore_into(ctx, prog, run, label, ok, bad)


def check_match(ctx, prog):
    from ..par import run_tasks
    ctx.rule('on every path of the match test the answer equals "all visible attributes present on both sides, each '
             'with one value covering the whole concept"; a reached leaf absorbs the instance iff it matches')
    T = []
    for kind in ('cobweb', 'cobweb3'):
        for ti in range(len(NUMT if kind == 'cobweb3' else NOM)):
            for reg in (('one', 'small', 'big') if kind == 'cobweb3' else ('big',)):
                T.append(('m', lambda c, kind=kind, ti=ti, reg=reg: scen_match(c, prog, kind, ti, reg)))
    for kind in ('cobweb', 'cobweb3', 'trestle'):
        for sub in (False, True):
            for real in (False, True):
                T.append(('leaf', lambda c, a=(kind, sub, real): scen_leaf(c, prog, *a)))
    from .stale import tasks
    run_tasks(ctx, T + tasks(prog, ('is_exact_match',), ()))


# ------------------------------------------------------------------ hidden
HID = [('_h', {'v': 'n'}), ('_h', {CV: CV}), (('_', ('_g', '?o1')), {'v': 'n'}), ('_', {'v': 'n', 'w': 'n'}),
       ('__x', {'w': 'n'})]


def with_hidden(spec, hs):
    s = dict(spec)
    for a, vals in hs:
        s[a] = vals
    return s


def visible_only(spec):
    return {a: v for a, v in spec.items() if visible(a)}


CF = {
    'cobweb': [([A, A2, A3], None, None), ([A, A], A3, [A, A2])],
    'cobweb3': [([X, X2], None, None), ([X, XO], X, [X, X2])],
}


def scen_scores(ctx, prog, kind, cfg, op):
    label = 'hidden attributes in %s (%s)' % (op, kind)
    hid = [h for h in HID if kind != 'cobweb' or CV not in h[1]]

    def run(I):
        specs, rest, grand = cfg
        if op == 'get_best_operation':
            rest = None
        h = hid[I.choose(len(hid), 'hidden')]
        where_ = I.choose(3, 'in')     # some tables / all tables / instance only
        kw = {'tree_kw': conv({'scaling': 0.5}) if kind != 'cobweb' else None,
              'scales': {'x': 'big'} if kind != 'cobweb' else None}
        p = [visible_only(s) for s in specs]
        r0 = visible_only(rest) if rest else None
        g0 = [visible_only(s) for s in grand] if grand else None
        F1 = Flat(I, kind, p, r0, g0, **kw)
        if where_ == 2:
            q, r1, g1 = p, r0, g0
        else:
            q = [with_hidden(s, [h]) if (i == 1 or where_ == 1) else s for i, s in enumerate(p)]
            r1 = with_hidden(r0, [h]) if r0 and where_ == 1 else r0
            g1 = [with_hidden(s, [h]) for s in g0] if g0 and where_ == 1 else g0
        F2 = Flat(I, kind, q, r1, g1, **kw)
        il = INSTS[kind]
        d = il[I.choose(len(il), 'instance')]
        d1 = {a: (N.atom('i.' + str(a)) if v == 'num' else v) for a, v in d.items() if visible(a)}
        d2 = dict(d1)
        if where_ != 0:
            d2[h[0]] = N.atom('hid') if CV in h[1] else 'v'
        out = []
        for F, dd in ((F1, d1), (F2, d2)):
            I.rnd, I.fresh_n = 0, 0
            n = F.n
            call = lambda *a: I.call(I.getattr_(n, op), list(a), {})
            inst = mkdict(I, dd)
            if op in ('category_utility', 'expected_correct_guesses'):
                out.append(call())
            elif op in ('cu_for_insert', 'relative_cu_for_insert'):
                out.append(call(F.kids[1][0], inst))
            elif op == 'cu_for_new_child':
                out.append(call(inst))
            elif op == 'cu_for_merge':
                out.append(call(F.kids[0][0], F.kids[1][0], inst))
            elif op == 'cu_for_split':
                out.append(call(F.kids[0][0]))
            elif op == 'cu_for_fringe_split':
                out.append(I.call(I.getattr_(F.kids[1][0], op), [inst], {}))
            elif op == 'is_exact_match':
                out.append(I.truth(I.call(I.getattr_(F.kids[1][0], op), [inst], {})))
            elif op == 'get_best_operation':
                r = call(inst, F.kids[0][0], F.kids[1][0], N.atom('b1cu'))
                out.append((r[0], r[1]))
            elif op == 'two_best_children':
                r = call(inst)
                out.append((r[0], r[1].tag, r[2].tag if r[2] is not None else None))
        return out, h, where_

    def ok(I, v, r):
        (a, b), h, w = v
        if isinstance(a, tuple):
            s = same(I, a[0], b[0]) and a[1:] == b[1:]
        elif isinstance(a, bool):
            s = a is b
        else:
            s = same(I, a, b)
        if s is None:
            ctx.undec(label + ': equal only under path conditions')
        elif s:
            ctx.ok()
        else:
            ctx.fail(op, 'hidden attributes do not change scores or matches',
                     'hidden attribute %r %s changes %s from %r to %r' % (
                         h[0], ('in one table', 'in the tables and the instance', 'in the instance')[w], op, a, b),
                     {'choices': trace_of(r), 'function': op})

    def bad(I, v, r):
        ctx.fail(v.fields.get('__where__', '?'), 'hidden attributes are accepted', '%s: raises %s(%s)' % (
            label, v.cls.name, desc(v.fields.get('args', ()))), {'choices': trace_of(r)})
    explore_into(ctx, prog, run, label, ok, bad)


def shape_of(I, n, depth=0):
    """Structure and visible tables below n."""
    ks = I.getattr_(n, 'children')
    I.full(ks)
    ks = ks._items
    st = stat_of(I, n)
    st.t = {k: v for k, v in st.t.items() if visible(k[0])}
    return (st.key(), tuple(sorted((str(vk(x.m)) if isinstance(x, Summ) else '1',
                                    shape_of(I, x.v if isinstance(x, Summ) else x, depth + 1)) for x in ks)))


def scen_tree(ctx, prog, kind, entry, spec, inst, depth, shape=None):
    """Learning with and without hidden attributes gives the same tree."""
    label = '%s with and without hidden attributes (%s)' % (entry, kind)

    def run(I):
        h, hv = [('_h', 'v'), ('_', 'num')][I.choose(2 if kind != 'cobweb' else 1, 'hidden')]
        intable = I.choose(2, 'hidden in tables')
        out = []

        quick_scores(I)
        opaque_whatif(I)
        script = []
        cur = [0, 0]

        def two(I, f, args, kw, node):
            ks = I.getattr_(args[0], 'children')
            I.full(ks)
            ks = [x for x in ks._items if not isinstance(x, Summ)]
            if cur[0] == 0:
                script.append(I.choose(min(len(ks), 2), 'best'))
                i = script[-1]
            else:
                if cur[1] >= len(script):
                    raise Diverged()
                i = script[cur[1]]
                cur[1] += 1
            return (N.atom('cu'), ks[i], ks[1 - i] if len(ks) > 1 else None)

        def op(I, f, args, kw, node):
            if cur[0] == 0:
                ks = I.getattr_(args[0], 'children')
                al = ['best', 'new']
                if I.decide(I._len_items(ks._items), 2, frozenset('>'), 'more than two'):
                    al.append('merge')
                if I.truth(I.length(I.getattr_(args[2], 'children'))):
                    al.append('split')
                script.append(al[I.choose(len(al), 'op')])
                o = script[-1]
            else:
                if cur[1] >= len(script):
                    raise Diverged()
                o = script[cur[1]]
                cur[1] += 1
            if len(script) > 8:
                raise Prune()
            return (N.atom('cu'), o)
        hook(I, 'two_best_children', two)
        hook(I, 'get_best_operation', op)
        for k in (0, 1):
            I.rnd, I.fresh_n = 0, 0
            sp = dict(spec)
            if k and intable:
                sp[h] = {'v': 'n'}
            g = GTree(I, kind, sp, depth=depth, shape=shape, rest=False)
            cur[0] = k
            d = {a: (N.atom('i.' + str(a)) if v == 'num' else v) for a, v in inst.items()}
            if k:
                d[h] = N.atom('hid') if hv == 'num' else hv
            try:
                ret = I.call(I.getattr_(g.tree, entry), [mkdict(I, d)], {})
            except Diverged:
                return None, h
            out.append((g, ret))
        if cur[1] != len(script):
            return None, h
        return out, h

    def ok(I, v, r):
        if v[0] is None:
            ctx.fail(entry, 'hidden attributes do not change the tree', 'hidden attribute %r changes the sequence of '
                     'operations' % (v[1],), {'choices': trace_of(r), 'function': entry})
            return
        ((g1, r1), (g2, r2)), h = v
        s1, s2 = shape_of(I, g1.tree.fields['root']), shape_of(I, g2.tree.fields['root'])
        if s1 != s2 or (r1.tag != r2.tag and (r1.tag or r2.tag)):
            if I.eqs and shape_only(s1) == shape_only(s2):
                raise Unsupported('tables agree only under the path condition')
            ctx.fail(entry, 'hidden attributes do not change the tree', 'hidden attribute %r changes where the '
                     'instance goes: %r versus %r' % (h, r1, r2), {'choices': trace_of(r), 'function': entry})
        else:
            ctx.ok()

    def bad(I, v, r):
        ctx.fail(v.fields.get('__where__', '?'), 'hidden attributes are accepted', '%s: raises %s(%s)' % (
            label, v.cls.name, desc(v.fields.get('args', ()))), {'choices': trace_of(r)})
    explore_into(ctx, prog, run, label, ok, bad)


class Diverged(Exception):
    pass


def shape_only(s):
    return tuple((m, shape_only(k)) for m, k in s[1])


def check_hidden(ctx, prog):
    from ..par import run_tasks
    ctx.rule('relational: the same abstract state with and without hidden attributes yields the same value numbers '
             'for every score, the same match answers and the same tree')
    T = []
    for kind in ('cobweb', 'cobweb3'):
        for cfg in CF[kind]:
            for op in OPS + ('is_exact_match', 'get_best_operation'):
                T.append((op, lambda c, kind=kind, cfg=cfg, op=op: scen_scores(c, prog, kind, cfg, op)))
    for kind in ('cobweb', 'cobweb3', 'trestle'):
        sp = {'a': {'v': 'n', 'w': 'n'}}
        inst = {'a': 'v'}
        if kind != 'cobweb':
            sp, inst = {'x': {CV: CV}}, {'x': 'num'}
        for entry in ('ifit', 'categorize'):
            for sh in (False, [False, False, False], [[False, False], False, False]):
                if kind == 'trestle' and sh and sh[0] and not ctx.thorough:
                    continue
                T.append((entry, lambda c, kind=kind, entry=entry, sp=sp, inst=inst, sh=sh: scen_tree(
                    c, prog, kind, entry, sp, inst, 2, sh)))
    run_tasks(ctx, T)
