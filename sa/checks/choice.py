"""C06: the best child and the best operation are chosen and carried out.

Score functions are replaced by a rank domain (every weak ordering of the
candidates); the selection code must return a maximal candidate, every
maximal candidate must be selectable on a tie, and the restructuring done
must be the one selected.
"""
import itertools
from .. import num as N
from ..values import *
from ..harness import *

CN = [PK + 'cobweb.CobwebNode.', PK + 'cobweb3.Cobweb3Node.']
SPEC = {'a': {'v': 'n'}}


def hook(I, name, fn):
    for c in CN:
        I.intercepts[c + name] = fn


def argnode(args, kw, i, name):
    if len(args) > i:
        return args[i]
    return kw.get(name)


# scores of the ranks: well apart; all negative and close together
VALUES = (lambda r: N.const(r), lambda r: N.const(r * 1e-10 - 1.5))


def mini(I, kind, k, counts, grand=()):
    """A concept with k leaf children of given concrete counts."""
    tree = new_tree(I, kind)
    root = tree.fields['root']
    cls = I.getattr_(root, '__class__')
    I.region = 'init'

    def node(tag, n):
        x = I.call(cls, [], {})
        x.tag = tag
        x.fields['tree'] = tree
        x.fields['count'] = N.const(n)
        av, vals = PyDict(I), PyDict(I)
        I.dset(vals, 'v', N.const(n), raw=True)
        I.dset(av, 'a', vals, raw=True)
        x.fields['av_counts'] = av
        return x
    kids = [node('c%d' % i, counts[i]) for i in range(k)]
    root.tag = 'p'
    root.fields['count'] = N.const(sum(counts))
    av, vals = PyDict(I), PyDict(I)
    I.dset(vals, 'v', N.const(sum(counts)), raw=True)
    I.dset(av, 'a', vals, raw=True)
    root.fields['av_counts'] = av
    root.fields['children'] = PyList(I, kids)
    for c in kids:
        c.fields['parent'] = root
    for i in grand:
        gs = [node('c%dg%d' % (i, j), 1) for j in range(2)]
        kids[i].fields['children'] = PyList(I, gs)
        for g in gs:
            g.fields['parent'] = kids[i]
    I.region = 'run'
    return tree, root, kids


def many(k):
    """Some orderings of many children: the two best anywhere, first, last and tied."""
    for i, j in ((0, k - 1), (k - 1, 0), (1, 0), (k // 2, 2), (k - 2, k - 1), (3, k // 2 + 1)):
        yield tuple(k + 2 if q == i else k + 1 if q == j else q for q in range(k)), (1,) * k
        yield tuple(k + 2 if q in (i, j) else -q for q in range(k)), tuple(2 if q == i else 1 for q in range(k))
    yield tuple(range(k)), (1,) * k
    yield tuple(reversed(range(k))), (1,) * k


def scen_children(ctx, prog, kind, k, tier):
    label = 'two best of %d children (%s)' % (k, kind)
    seen = {}
    rs = range(min(k, 3))
    if k > 4:
        cfgs = many(k)
    else:
        cfgs = [(r, c) for r in itertools.product(rs, repeat=k) for c in itertools.product((1, 2), repeat=k)]
    if k == 4:
        cfgs = [(r, c) for r, c in cfgs if c in ((1, 1, 1, 1), (1, 2, 1, 2), (2, 1, 1, 1))]

    def one(cfg, value):
        ranks, counts = cfg

        def run(I):
            tree, n, kids = mini(I, kind, k, counts)
            hits = set()

            def score(I, f, args, kw, node):
                c = argnode(args, kw, 1, 'child')
                i = next((i for i, x in enumerate(kids) if x is c), None)
                if i is None:
                    raise Unsupported('score of something that is not a child')
                hits.add(i)
                return value(ranks[i])
            hook(I, 'relative_cu_for_insert', score)
            hook(I, 'cu_for_insert', score)
            hook(I, 'compute_relative_CU_const', lambda I, f, a, k_, n_: N.const(0))
            r = I.call(I.getattr_(n, 'two_best_children'), [mkdict(I, {'a': 'v'})], {})
            if not hits:
                raise Unsupported('children are not scored through the insertion scores')
            if not isinstance(r, tuple) or len(r) != 3:
                raise Unsupported('two_best_children has another interface')
            ix = [next((i for i, x in enumerate(kids) if x is y), None) for y in r[1:]]
            return r, ix

        def ok(I, v, r):
            _, (a, b) = v
            key = lambda i: (ranks[i], counts[i])
            top = max(key(i) for i in range(k))
            if a is None or key(a) != top:
                fail('the best child has the highest score, then the largest size',
                     'scores %s, sizes %s: child %s is returned as best' % (ranks, counts, a), r)
                return
            rest = [i for i in range(k) if i != a]
            if not rest:
                if b is not None:
                    fail('a single child has no runner-up', 'second best is %s' % b, r)
                else:
                    ctx.ok()
                return
            top2 = max(key(i) for i in rest)
            if b is None or key(b) != top2 or b == a:
                fail('the runner-up is the best of the others',
                     'scores %s, sizes %s: child %s is returned as second best' % (ranks, counts, b), r)
                return
            got.add((a, b))
            ctx.ok()

        def fail(rule, msg, r):
            ctx.fail('two_best_children', rule, msg, {'scenario': label, 'function': 'two_best_children',
                                                      'choices': trace_of(r)})

        def bad(I, v, r):
            ctx.fail(v.fields.get('__where__', '?'), 'ties never compare concepts or crash',
                     'scores %s, sizes %s: raises %s(%s)' % (ranks, counts, v.cls.name, desc(v.fields.get('args', ()))),
                     {'scenario': label, 'function': 'two_best_children'})
        got = set()
        und = sum(ctx.undecided.values())
        explore_into(ctx, prog, run, label, ok, bad)
        if und != sum(ctx.undecided.values()) or ctx.violations:
            return
        key = lambda i: (ranks[i], counts[i])
        top = max(key(i) for i in range(k))
        want = {i for i in range(k) if key(i) == top}
        have = {a for a, _ in got}
        if k > 1 and want - have:
            ctx.fail('two_best_children', 'every tied child can be chosen',
                     'scores %s, sizes %s: child(ren) %s are never chosen' % (ranks, counts, sorted(want - have)),
                     {'scenario': label, 'function': 'two_best_children'})
        else:
            ctx.ok()
    for cfg in cfgs:
        for value in VALUES:
            one(cfg, value)


OPN = ('best', 'new', 'merge', 'split')


def scen_ops(ctx, prog, kind, k):
    label = 'best operation with %d children (%s)' % (k, kind)

    def one(grand, second, ops, ranks, value):
        got = set()

        def run(I):
            tree, n, kids = mini(I, kind, k, [1 + i % 2 for i in range(k)], grand)
            hits = {}

            def sc(nm):
                def f(I, fn, args, kw, node):
                    hits[nm] = True
                    return value(ranks[nm])
                return f
            hook(I, 'cu_for_new_child', sc('new'))
            hook(I, 'cu_for_merge', sc('merge'))
            hook(I, 'cu_for_split', sc('split'))
            b2 = kids[1] if second else None
            args = [mkdict(I, {'a': 'v'}), kids[0], b2, value(ranks['best'])]
            kw = {}
            if ops is not None:
                args.append(PyList(I, list(ops)))
            r = I.call(I.getattr_(n, 'get_best_operation'), args, kw)
            return r, hits

        al = set(OPN if ops is None else ops)
        if not (k > 2 and second):
            al.discard('merge')
        if not grand:
            al.discard('split')
        if not al:
            return
        top = max(ranks[o] for o in al)
        want = {o for o in al if ranks[o] == top}
        dsc = 'operations %s, %d children, best child %s, scores %s' % (
            sorted(al), k, 'with children' if grand else 'a leaf', {o: ranks[o] for o in OPN})

        def ok(I, v, r):
            res, hits = v
            if not isinstance(res, tuple) or len(res) != 2 or not isinstance(res[1], str):
                raise Unsupported('get_best_operation has another interface')
            if set(al) - {'best'} - set(hits):
                raise Unsupported('operations are not scored through the what-if scores')
            op = res[1]
            if op not in al:
                fail('only applicable, permitted operations are chosen', '%s: chose %s' % (dsc, op), r)
            elif op not in want:
                fail('the operation chosen has the highest score', '%s: chose %s' % (dsc, op), r)
            elif same(I, res[0], value(ranks[op])) is False:
                fail('the score returned is that of the operation chosen', '%s: chose %s with score %r' % (
                    dsc, op, res[0]), r)
            else:
                got.add(op)
                ctx.ok()

        def fail(rule, msg, r):
            ctx.fail('get_best_operation', rule, msg, {'scenario': label, 'function': 'get_best_operation',
                                                       'choices': trace_of(r)})

        def bad(I, v, r):
            ctx.fail(v.fields.get('__where__', '?'), 'an operation is always chosen', '%s: raises %s(%s)' % (
                dsc, v.cls.name, desc(v.fields.get('args', ()))), {'function': 'get_best_operation'})
        und = sum(ctx.undecided.values())
        explore_into(ctx, prog, run, label, ok, bad)
        if und == sum(ctx.undecided.values()) and not ctx.violations:
            if want - got:
                fail_t = '%s: %s can never be chosen' % (dsc, sorted(want - got))
                ctx.fail('get_best_operation', 'every tied operation can be chosen', fail_t,
                         {'scenario': label, 'function': 'get_best_operation'})
            else:
                ctx.ok()
    subsets = [None] + [list(s) for n in (1, 2, 3) for s in itertools.combinations(OPN, n)]
    for grand in ((), (0,)):
        for second in ((True, False) if k > 1 else (False,)):
            for ops in subsets:
                rel = [o for o in OPN if ops is None or o in ops]
                for rk in itertools.product(range(3), repeat=len(rel)):
                    ranks = {o: 9 for o in OPN}
                    ranks.update(dict(zip(rel, rk)))
                    for value in VALUES[:2 if len(rel) < 4 else 1 + k % 2]:
                        one(grand, second, ops, ranks, value)


def scen_dispatch(ctx, prog, kind, depth, entry):
    """The operation selected at each concept is the one carried out."""
    label = '%s on a generic %s tree, prescribed operations' % (entry, kind)

    def run(I):
        quick_scores(I)
        opaque_whatif(I)
        g = GTree(I, kind, SPEC, depth=depth, budget=2 if entry == 'ifit' else 3)
        log = []
        pend = []

        def kids(n):
            l = I.getattr_(n, 'children')
            I.full(l)
            return list(l._items)

        def two(I, f, args, kw, node):
            n = args[0]
            ks = [x for x in kids(n) if not isinstance(x, Summ)]
            if len(ks) < 1:
                raise Unsupported('no explicit child')
            i = I.choose(min(len(ks), 2), 'best')
            b1 = ks[i]
            rest = [x for x in ks if x is not b1]
            b2 = rest[0] if rest else None
            pend.append((n, b1, b2))
            if entry != 'ifit':
                log.append((n, None, b1, b2, kids(n), None))
            return (I.fresh('cu'), b1, b2)

        def op(I, f, args, kw, node):
            n = args[0]
            b1 = argnode(args, kw, 2, 'best1')
            b2 = argnode(args, kw, 3, 'best2')
            if not pend or pend[-1][0] is not n or pend[-1][1] is not b1 or pend[-1][2] is not b2:
                bad.append(('the operations weighed are about the best children',
                            'best operation asked of %r for %r, %r' % (n, b1, b2)))
            al = ['best', 'new']
            if b2 is not None and I.decide(I._len_items(kids(n)), 2, frozenset('>'), 'more than two'):
                al.append('merge')
            if I.truth(I.length(I.getattr_(b1, 'children'))):
                al.append('split')
            o = al[I.choose(len(al), 'op')]
            log.append((n, o, b1, b2, kids(n), kids(b1)))
            if len(log) > 6:
                raise Prune()
            return (I.fresh('cu'), o)
        bad = []
        hook(I, 'two_best_children', two)
        hook(I, 'get_best_operation', op)
        ret = I.call(I.getattr_(g.tree, entry), [mkdict(I, {'a': 'v'})], {})
        return g, log, ret, bad

    def ident(x):
        return id(x.v) if isinstance(x, Summ) else id(x)

    def ok(I, v, r):
        g, log, ret, bad = v

        def kids(n):
            l = I.getattr_(n, 'children')
            I.full(l)
            return list(l._items)
        if not isinstance(ret, PyObj):
            bad.append(('a concept is returned', 'returned %r' % (ret,)))
        for i, (n, o, b1, b2, ks, gk) in enumerate(log):
            nxt = log[i + 1] if i + 1 < len(log) else None
            if o is None or o == 'best':
                if nxt is None:
                    # b1 is a leaf: it absorbs the instance or gains a sibling
                    par = ret.fields.get('parent')
                    good = ret is b1 or (entry == 'ifit' and par is not None and any(
                        x is b1 for x in kids(par) if not isinstance(x, Summ)))
                    if not good:
                        bad.append(('the best child receives the instance', 'best child %r of %r, returned %r' % (
                            b1, n, ret)))
                elif nxt[0] is not b1:
                    bad.append(('the best child receives the instance', 'best child %r of %r, went on with %r' % (
                        b1, n, nxt[0])))
            elif o == 'new':
                if nxt is not None or not any(x is ret for x in kids(n)) or any(x is ret for x in ks) or \
                        len(kids(n)) != len(ks) + 1:
                    bad.append(('"new" makes a new child of the concept', 'chosen at %r, returned %r' % (n, ret)))
            elif o == 'merge':
                if nxt is None:
                    bad.append(('after "merge" the merged concept is considered', 'merge at %r ended at %r' % (n, ret)))
                else:
                    m, mk_ = nxt[0], nxt[4]
                    if {ident(x) for x in mk_} != {id(b1), id(b2)} or any(x is m for x in ks):
                        bad.append(('"merge" merges the two best children',
                                    'merged concept %r has children %r, best were %r, %r' % (m, mk_, b1, b2)))
            elif o == 'split':
                want = {ident(x) for x in ks if x is not b1} | {ident(x) for x in gk}
                if nxt is None or nxt[0] is not n or {ident(x) for x in nxt[4]} != want:
                    bad.append(('"split" replaces the best child by its children and reconsiders the concept',
                                'split of %r at %r' % (b1, n)))
        for rule, msg in bad:
            ctx.fail('%s: path through %s' % (entry, ', '.join(sorted(
                f.replace(PK, '') for f in I.functions if f.split('.')[-1] in (
                    'cobweb', 'merge', 'split', 'create_new_child', 'categorize', '_cobweb_categorize')))), rule, msg,
                {'scenario': label, 'choices': trace_of(r), 'function': entry})
        if not bad:
            ctx.ok(max(1, len(log)))
        if entry == 'ifit' and log:
            ctx.count('prescribed operation sequences')

    def crash(I, v, r):
        ctx.fail(v.fields.get('__where__', '?'), 'every selected operation can be carried out', 'raises %s(%s)' % (
            v.cls.name, desc(v.fields.get('args', ()))), {'scenario': label, 'choices': trace_of(r)})
    explore_into(ctx, prog, run, label, ok, crash)


def check(ctx, prog):
    from ..par import run_tasks
    ctx.rule('in the rank domain (all weak orderings of the candidates) selection returns a maximal candidate and '
             'every tied maximum is reachable; the restructuring performed is the one selected')
    T = []
    for kind in ('cobweb', 'cobweb3'):
        for k in (1, 2, 3) + ((4,) if ctx.thorough or kind == 'cobweb' else ()) + (11, 40):
            T.append(('children', lambda c, kind=kind, k=k: scen_children(c, prog, kind, k, ctx.tier)))
        for k in (1, 2, 3, 4) if ctx.thorough else (2, 3):
            T.append(('ops', lambda c, kind=kind, k=k: scen_ops(c, prog, kind, k)))
    for kind in ('cobweb', 'cobweb3', 'trestle'):
        T.append(('dispatch', lambda c, kind=kind: scen_dispatch(c, prog, kind, 2, 'ifit')))
        T.append(('categorize', lambda c, kind=kind: scen_dispatch(c, prog, kind, 3, 'categorize')))
    from .stale import tasks
    run_tasks(ctx, T + tasks(prog, (), ('categorize',)))
