"""C18: clusterings are cuts of the tree found by successive best splits."""
from .. import num as N
from ..values import *
from ..harness import *
from .scores import cu, visible
from .prep import reporter
from .pure import drain
from .own import nodes_of

RULE = 'a clustering is the cut of the tree reached by splitting where the heuristic is smallest'
CL = PK + 'cluster'
SP = {'a': {'v': 'n', 'w': 'n'}}
SHAPES = {
    'leaf': False,
    'flat': (False, False, False),
    'two': ([False, False], False),
    'twin': ([False, False], [False, False]),
    'deep': ([[False, False], False], [False, False]),
}


CHAIN = False
for _ in range(7):
    CHAIN = (CHAIN, False) if isinstance(CHAIN, bool) else (list(CHAIN), False)
DEEP = dict(SHAPES, chain=CHAIN)


class Ref(object):
    """The tree as ids: kids, parent."""

    def __init__(self, I, root):
        self.kids, self.par, self.leaves = {}, {}, []
        self.root = root.fields['concept_id']

        def go(n):
            i = n.fields['concept_id']
            ch = I.getattr_(n, 'children')._items
            self.kids[i] = [c.fields['concept_id'] for c in ch]
            for c in ch:
                self.par[c.fields['concept_id']] = i
                go(c)
            if not ch:
                self.leaves.append(i)
        go(root)

    def path(self, i):
        p = [i]
        while p[-1] in self.par:
            p.append(self.par[p[-1]])
        return p[::-1]

    def assign(self, top, leaves):
        out = []
        for l in leaves:
            p = self.path(l)
            out.append(next((x for x in p if x in top), self.root))
        return tuple(out)

    def runs(self, leaves, H, maxsteps):
        """All legal sequences of (assignment) given heuristic values H."""
        def go(top, n):
            a = self.assign(top, leaves)
            if n >= maxsteps:
                yield [a]
                return
            cands = []
            for t in set(a):
                if self.kids[t] and t != self.root:
                    top2 = (top - {t}) | set(self.kids[t])
                    cands.append((H.get(self.assign(top2, leaves)), t, top2))
            if not cands:
                yield [a]
                return
            if len(cands) == 1:
                best = cands
            elif any(c[0] is None for c in cands):
                # cannot be told apart (the search may have ended here)
                yield [a, None]
                return
            else:
                m = min(c[0] for c in cands)
                best = [c for c in cands if c[0] == m]
            for _, t, top2 in best:
                for r in go(top2, n + 1):
                    yield [a] + r
        return list(go(set(self.kids[self.root]), 1))


def put(I, heurs, H, calls, ranks, close=False):
    """Heuristics with arbitrary (small, or negative and close) values per
    assignment."""
    def mk(nm):
        def f(I, fn, args, kw, node):
            c, l = args[0], args[1]
            key = tuple(x.fields['concept_id'] if isinstance(x, PyObj) else None for x, _ in I.iterate(c))
            if None in key:
                raise PyRaise(I.mkexc('AttributeError', 'no concept')) if hasattr(I, 'mkexc') else Unsupported('no concept')
            lv = tuple(x.fields['concept_id'] for x, _ in I.iterate(l))
            if key not in H:
                H[key] = I.choose(ranks, 'heuristic')
                if close:
                    H[key] = -2 + H[key] * 2.0 ** -30
            calls.append((nm, key, lv))
            return N.const(float(H[key]))
        return f
    for h in heurs:
        I.intercepts[CL + '.' + h] = mk(h)


def pick(I, g, order, log):
    """Learning and categorizing reach the leaves in the given order."""
    def mk(nm):
        def f(I, fn, args, kw, node):
            x = kw['instance'] if 'instance' in kw else args[1]
            log.append((nm, args[0], x))
            lv = [n for n in nodes_of(I, I.getattr_(args[0], 'root')) if not I.getattr_(n, 'children')._items]
            return lv[order[(len(log) - 1) % len(order)] % len(lv)]
        return f
    for q in ('cobweb.CobwebTree', 'cobweb3.Cobweb3Tree', 'trestle.TrestleTree', 'dummy.DummyTree'):
        for m in ('ifit', 'categorize'):
            I.intercepts[PK + q + '.' + m] = mk(m)


ORD = {'leaf': [(0,), (0, 0)], 'flat': [(0, 1, 2), (2, 2, 0), (1,)], 'two': [(0, 1, 2), (1, 1, 2), (2, 2), (0, 1)],
       'twin': [(0, 1, 2, 3), (0, 3, 0), (1, 2), (2, 3, 0)], 'deep': [(0, 1, 2, 3, 4), (0, 3, 1), (1, 2, 4), (4, 0), (0, 1)],
       'chain': [(0, 1, 7), (4, 0, 7, 2), (7,)]}


def lab(i):
    return 'Concept%d' % i


def scen(ctx, prog, shape, fn, kw, oi, ranks, kind='cobweb'):
    label = '%s(%s) on a %s tree' % (fn, ', '.join('%s=%s' % x for x in sorted(kw.items())), shape)
    heur = kw.get('heuristic', 'CU')

    def run(I):
        quick_scores(I)
        g = GTree(I, kind, SP, depth=3, rest=False, shape=SHAPES[shape], budget=9)
        if oi % 2:              # concepts made late
            for i, x in enumerate(nodes_of(I, g.root)):
                x.fields['concept_id'] = 10 ** 5 * (i + 3) + 7
        R = Ref(I, g.root)
        order = ORD[shape][oi]
        H, calls, log = {}, [], []
        put(I, ('CU', 'AIC', 'BIC', 'AICc'), H, calls, ranks, oi % 2 == 1)
        pick(I, g, order, log)
        il = [mkdict(I, {'a': 'v', 'b': 'u%d' % i}) for i in range(len(order))]
        l = PyList(I, list(il))
        k = dict(kw)
        if k.get('heuristic') and not k['heuristic'].islower() and not k.get('byname'):
            k['heuristic'] = I.get(CL, heur)
        k.pop('byname', None)
        r = I.call(I.get(CL, fn), [g.tree, l], k)
        if isinstance(r, IterV):
            out = [x for x, _ in I.iterate(r)]
        elif isinstance(r, PyList):
            out = r
        else:
            raise Unsupported('clusters have another form')
        mod = kw.get('mod', True)
        want = 'ifit' if mod else 'categorize'
        if [x[0] for x in log] != [want] * len(il):
            if not log:
                raise Unsupported('instances are placed in another way')
            return 'the instances are placed by %s' % ([x[0] for x in log],)
        if any(x[2] is not y and deep(I, x[2]) != deep(I, y) for x, y in zip(log, il)):
            return 'the instances are placed in another order'
        if any(x[1] is g.tree for x in log) and mod:
            return 'the instances are learned into the tree itself'
        hn = {'aicc': 'AICc'}.get(heur.lower(), heur.upper()) if fn in ('cluster_iter', 'cluster_split_search') else 'CU'
        lv = tuple(R.leaves[i % len(R.leaves)] for i in order)
        for c in calls:
            if c[0] != hn:
                return 'the heuristic used is %s' % c[0]
            if c[2] != lv:
                return 'the heuristic is asked about the leaves %s instead of %s' % (c[2], lv)
        lo, hi = kw.get('minsplit', 1), kw.get('maxsplit', 100000 if fn in ('cluster_iter', 'k_cluster') else 1)
        if fn == 'k_cluster':
            lo = 1
        runs = R.runs(lv, H, min(hi, 50))

        def labels(x):
            if not isinstance(x, (PyList, tuple)):
                raise Unsupported('a clustering has another form')
            o = []
            for y, _ in I.iterate(x):
                if isinstance(y, PyObj):
                    o.append(('node', y.fields['concept_id']))
                else:
                    o.append(y)
            return tuple(o)
        nodes = kw.get('labels') is False
        form = (lambda a: tuple(('node', i) for i in a)) if nodes else (lambda a: tuple(lab(i) for i in a))
        allr = form((R.root,) * len(lv)) if not nodes else tuple(lab(R.root) for _ in lv)
        good = []
        if fn in ('cluster', 'cluster_iter'):
            got = []
            for x in out:
                if fn == 'cluster':
                    got.append(labels(x))
                else:
                    if not isinstance(x, tuple) or len(x) != 2:
                        raise Unsupported('a clustering has another form')
                    got.append((labels(x[0]), I.num(x[1]).c if I.is_num(x[1]) and I.num(x[1]).const else None))
            for r in runs:
                r = r[lo - 1:]
                if None in r:
                    continue
                good.append([form(a) if fn == 'cluster' else (form(a), H.get(a)) for a in r])
        elif fn == 'k_cluster':
            got = labels(out)
            for r in runs:
                best = allr
                for a in r:
                    if a is None or len(set(a)) > kw.get('k', 3):
                        break
                    best = form(a)
                good.append(best)
        else:
            got = labels(out)
            for r in runs:
                r = r[lo - 1:]
                if None in r:
                    continue
                if not r:
                    good.append(allr)
                    continue
                if any(H.get(a) is None for a in r):
                    continue
                m = min(H[a] for a in r)
                good.append(next(form(a) for a in r if H[a] == m))
        if got not in good:
            return 'returns %s where the splits allow %s' % (str(got)[:300], str(good)[:300])
        return None
    ok, bad = reporter(ctx, RULE, label, fn)
    explore_into(ctx, prog, run, label, ok, bad)


def err_scen(ctx, prog, fn, kw, n):
    label = '%s(%s) of %d instances' % (fn, ', '.join('%s=%r' % x for x in sorted(kw.items())), n)

    def run(I):
        quick_scores(I)
        g = GTree(I, 'cobweb', SP, depth=3, rest=False, shape=SHAPES['two'], budget=9)
        put(I, ('CU', 'AIC', 'BIC', 'AICc'), {}, [], 1)
        pick(I, g, (0, 1), [])
        l = PyList(I, [mkdict(I, {'a': 'v'}) for _ in range(n)])
        try:
            r = drain(I, I.call(I.get(CL, fn), [g.tree, l], dict(kw)))
        except PyRaise as e:
            return None if e.exc.cls.name == 'ValueError' else 'is reported as %s' % e.exc.cls.name
        return 'is accepted'
    ok, bad = reporter(ctx, 'impossible requests are rejected with ValueError', label, fn)
    explore_into(ctx, prog, run, label, ok, bad)


def depth_scen(ctx, prog, shape, oi, mod):
    label = 'depth_labels(mod=%s) on a %s tree' % (mod, shape)

    def run(I):
        quick_scores(I)
        g = GTree(I, 'cobweb', SP, depth=12, rest=False, shape=DEEP[shape], budget=30)
        if oi % 2:              # concepts made late
            for i, x in enumerate(nodes_of(I, g.root)):
                x.fields['concept_id'] = 10 ** 5 * (i + 3) + 7
        R = Ref(I, g.root)
        order = ORD[shape][oi]
        log = []
        pick(I, g, order, log)
        il = [mkdict(I, {'a': 'v', 'b': 'u%d' % i}) for i in range(len(order))]
        out = I.call(I.get(CL, 'depth_labels'), [g.tree, PyList(I, il)], {} if mod is None else {'mod': mod})
        if not log:
            raise Unsupported('instances are placed in another way')
        want = 'categorize' if mod is False else 'ifit'
        if [x[0] for x in log] != [want] * len(il):
            return 'the instances are placed by %s' % ([x[0] for x in log],)
        if any(x[2] is not y and deep(I, x[2]) != deep(I, y) for x, y in zip(log, il)):
            return 'the instances are placed in another order'
        paths = [R.path(R.leaves[i % len(R.leaves)]) for i in order]
        d = max(map(len, paths))
        ref = [[lab((p + [p[-1]] * d)[j]) for p in paths] for j in range(d)]
        if not isinstance(out, PyList):
            raise Unsupported('labels have another form')
        got = [[y for y, _ in I.iterate(x)] for x, _ in I.iterate(out)]
        return None if got == ref else 'gives %s instead of %s' % (got, ref)
    ok, bad = reporter(ctx, 'depth labels name the ancestors of each leaf, general to specific', label, 'depth_labels')
    explore_into(ctx, prog, run, label, ok, bad)


# ------------------------------------------------------------- heuristics
HS = {'cobweb': {'a': {'v': 'n', 'w': 'n'}, 'b': {'u': 'n'}, '_h': {'v': 'n'}},
      'cobweb3': {'a': {'v': 'n', 'w': 'n'}, 'm': {'v': 'n', CV: CV}, '_h': {'v': 'n', CV: CV}}}
CUTS = [((0, 1, 2, 3), (0, 1)), ((0, 0, 2), (0, 1)), ((0, 2), (2, 1)), ((3, 1), (0, 1)), ((0, 1, 2, 3), (2, 3, 1)),
        ((0, 1), (0,)), ((2,), (1,)), ((0, 1, 2, 3), (2, 3, 4, 5))]


def heur_scen(ctx, prog, kind, fn, tiny):
    label = '%s of clusters in a %s tree' % (fn, kind)
    spec = {'a': {'v': 'n'}, '_h': {'v': 'n', 'w': 'n'}} if tiny else HS[kind]
    if tiny and kind == 'cobweb3':
        spec = {'x': {CV: CV}, '_h': {CV: CV}}
    if tiny == 'scaled':
        spec = {('x', '?o'): {CV: CV, 'v': 'n'}}

    def run(I):
        quick_scores(I)
        g = GTree(I, kind, spec, depth=2, rest=False, cvlo=30, shape=SHAPES['twin'], budget=9,
                  tree_kw={'scaling': N.const(0.5) if tiny == 'scaled' else False} if kind != 'cobweb' else None)
        if tiny == 'scaled':
            o = cv_object(I, N.atom('Sx.n', 30, 1e6), N.atom('Sx.s'), N.atom('Sx.q', 200), 'Sx')
            N.B['Sx.mq'] = (1.0, INF)
            o.fields['meanSq'].lo = 1.0
            I.dset(tree_scales(I, g.tree), 'x', o, raw=True)
        ns = nodes_of(I, g.root)
        lv = [n for n in ns if not I.getattr_(n, 'children')._items]
        inner = [n for n in ns if n is not g.root and n not in lv]
        cand = inner + lv
        ls, cs = CUTS[I.choose(len(CUTS), 'clusters')]
        top = [cand[i] for i in cs]
        if tiny is True:
            ls = ls * 3
        leaves = [lv[i] for i in ls]
        assign = []
        for x in leaves:
            c = [t for t in top if t is x or x.fields['parent'] is t]
            if not c:
                raise Prune()
            assign.append(c[0])
        if fn == 'CU':
            order = []
            for t in assign:
                if t not in order:
                    order.append(t)
            kids = []
            for t in order:
                st = None
                for c, x in zip(assign, leaves):
                    if c is t:
                        st = g.init[x.oid] if st is None else stat_comb(I, st, g.init[x.oid])
                kids.append(st)
            tot = kids[0]
            for x in kids[1:]:
                tot = stat_comb(I, tot, x)
            I.intercepts.pop(PK + 'cobweb.CobwebNode.expected_correct_guesses', None)
            for q in list(I.intercepts):
                if 'guesses' in q or 'category_utility' in q:
                    I.intercepts.pop(q)
            want = N.scale(cu(I, g.tree, tot, [(x, None) for x in kids]), -1)
        else:
            LL = {}

            def ll(I, f, args, kw, node):
                key = (args[0].oid, (args[1] if len(args) > 1 else kw['child_leaf']).oid)
                if key not in LL:
                    LL[key] = N.atom('ll%d' % len(LL), -50, -1)
                return LL[key]
            for q in ('cobweb.CobwebNode', 'cobweb3.Cobweb3Node'):
                I.intercepts[PK + q + '.log_likelihood'] = ll
        before = {n.oid: node_state(I, n) for n in ns}
        r = I.call(I.get(CL, fn), [PyList(I, list(assign)), PyList(I, list(leaves))], {})
        for n in ns:
            if node_state(I, n) != before[n.oid]:
                return 'concept %s is changed' % n.tag
        if fn != 'CU':
            tot = N.const(0)
            for c, x in zip(assign, leaves):
                if (c.oid, x.oid) not in LL:
                    return 'the likelihood of leaf %s in its cluster is not used' % x.tag
                tot = N.add(tot, LL[c.oid, x.oid])
            k, done = 0, []
            for c in assign:
                if c not in done:
                    done.append(c)
                    for (a, v), x in g.init[c.oid].t.items():
                        if visible(a):
                            k += 2 if len(x) == 3 else 1
            n = len(leaves)
            aic = N.add(N.const(2 * k), N.scale(tot, -2))
            if fn == 'AIC':
                want = aic
            elif fn == 'BIC':
                want = N.add(N.scale(tot, -2), N.mul(N.const(k), N.log(N.const(n))))
            elif n - k <= 1:
                return None if isinstance(r, Inf) else 'is %r for %d parameters and %d instances' % (r, k, n)
            else:
                want = N.add(aic, N.const(Fraction(2 * k * (k + 1), n - k - 1)))
        if not I.is_num(r) or isinstance(r, (Inf, NaN)):
            return 'is %r instead of %r' % (r, want)
        s = same(I, r, want)
        if s is None:
            raise Unsupported('equal only under path conditions')
        return None if s else 'is %r instead of %r' % (r, want)
    ok, bad = reporter(ctx, 'clustering heuristics equal their formulas', label, fn)
    explore_into(ctx, prog, run, label, ok, bad)


def check(ctx, prog):
    from ..par import run_tasks
    ctx.rule('every clustering returned under every ranking of the heuristic = one of the cuts reached by smallest-heuristic splits; '
             'value numbers of the heuristics = their formulas')
    T = []

    def add(*a):
        T.append(('%s' % (a,), lambda c: scen(c, prog, *a)))
    for shape in SHAPES:
        for oi in range(len(ORD[shape])):
            add(shape, 'cluster_iter', {'mod': False, 'heuristic': 'CU'}, oi, 2)
            add(shape, 'cluster_iter', {'maxsplit': 2, 'heuristic': 'AIC'}, oi, 3)
            add(shape, 'cluster_iter', {'minsplit': 2, 'maxsplit': 3, 'labels': False, 'heuristic': 'BIC', 'byname': True},
                oi, 2)
            add(shape, 'cluster', {}, oi, 2)
            add(shape, 'cluster', {'minsplit': 2, 'maxsplit': 2, 'mod': False}, oi, 3)
            add(shape, 'cluster', {'maxsplit': 4}, oi, 2)
            for k in (2, 3, 4):
                add(shape, 'k_cluster', {'k': k, 'mod': k == 3}, oi, 2)
            add(shape, 'k_cluster', {}, oi, 2)
            add(shape, 'cluster_split_search', {'maxsplit': 3}, oi, 2)
            add(shape, 'cluster_split_search', {'minsplit': 2, 'maxsplit': 3, 'mod': False, 'heuristic': 'aicc'}, oi, 2)
            add(shape, 'cluster_split_search', {'maxsplit': 2, 'labels': False, 'heuristic': 'BIC'}, oi, 3)
            for mod in (None, True, False):
                T.append(('depth %s %d %s' % (shape, oi, mod),
                          lambda c, a=(shape, oi, mod): depth_scen(c, prog, *a)))
    for oi in range(len(ORD['chain'])):
        T.append(('depth chain %d' % oi, lambda c, oi=oi: depth_scen(c, prog, 'chain', oi, False)))
    for fn, kw, n in [('cluster_iter', {'minsplit': 0}, 2), ('cluster_iter', {'minsplit': 3, 'maxsplit': 2}, 2),
                      ('cluster_iter', {}, 0), ('cluster_iter', {'heuristic': 'none'}, 2), ('cluster', {'minsplit': -1}, 1),
                      ('cluster', {}, 0), ('cluster', {'minsplit': 2}, 2), ('k_cluster', {'k': 1}, 2),
                      ('k_cluster', {'k': 0}, 2), ('cluster_split_search', {}, 0),
                      ('cluster_split_search', {'minsplit': 2}, 2), ('cluster_split_search', {'heuristic': 'CV'}, 2)]:
        T.append(('err %s %s %d' % (fn, kw, n), lambda c, a=(fn, kw, n): err_scen(c, prog, *a)))
    for kind in ('cobweb', 'cobweb3'):
        for fn in ('CU', 'AIC', 'BIC', 'AICc'):
            for tiny in (False, True):
                T.append(('%s %s %s' % (kind, fn, tiny), lambda c, a=(kind, fn, tiny): heur_scen(c, prog, *a)))
    T.append(('CU scaled', lambda c: heur_scen(c, prog, 'cobweb3', 'CU', 'scaled')))
    from .stale import tasks
    run_tasks(ctx, T + tasks(prog, (), ('depth_labels',)))
