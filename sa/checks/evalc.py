"""C17: incremental evaluation predicts before it learns."""
from .. import num as N
from ..values import *
from ..harness import *
from .numeric import prob_ref
from .prep import reporter

Missing = object()
RULEP = 'a prediction is scored without showing the value to be predicted'
RULEE = 'incremental evaluation scores each instance before learning it, run by run'
SPEC = {'cobweb': {'a': {'vv': 'n', 'w': 'n', True: 'n'}, '_h': {'vv': 'n'}},
        'cobweb3': {'a': {'vv': 'n', 'w': 'n', True: 'n'}, 'x': {CV: CV}, 'm': {'vv': 'n', CV: CV}, '_h': {'vv': 'n'}}}
EV = PK + 'evaluation'


def pick_leaf(I, log):
    """Descent with an arbitrary best child; the instance used is recorded."""
    def two_best(I, f, args, kw, node):
        n = args[0]
        x = args[1] if len(args) > 1 else kw.get('instance')
        ch = list(I.getattr_(n, 'children')._items)
        k = I.choose(len(ch), 'best child')
        b = ch.pop(k)
        log.append((n, x, b))
        return (I.fresh('score'), b, ch[0] if ch else None)
    for q in ('cobweb.CobwebNode', 'cobweb3.Cobweb3Node'):
        I.intercepts[PK + q + '.two_best_children'] = two_best


def targets(kind):
    T = [('a', 'vv'), ('a', 'unseen'), ('a', True), ('a', None), ('_h', 'vv'), ('zz', 'vv'), ('zz', None)]
    if kind != 'cobweb':
        T += [('x', 'num'), ('x', None), ('m', 'vv'), ('m', 'num'), ('x', 'zero'), ('zz', 'num'), ('a', 'num')]
    return T


def setup(I, kind, log, log2):
    quick_scores(I)
    pick_leaf(I, log)
    k = 'cobweb' if kind == 'cobweb' else 'cobweb3'
    shape = (False, False) if kind != 'dummy' else False
    g = GTree(I, kind, SPEC[k], depth=2, rest=False, cvlo=30, shape=shape)
    if kind != 'cobweb':
        for a in ('x', 'm'):
            o = cv_object(I, N.atom('S%s.n' % a, 30, 1e6), N.atom('S%s.s' % a), N.atom('S%s.q' % a, 200), 'S' + a)
            N.B['S%s.mq' % a] = (1e-30, INF)
            o.fields['meanSq'].lo = 1e-30
            I.dset(tree_scales(I, g.tree), a, o, raw=True)
    tg = targets(k)
    attr, val = tg[I.choose(len(tg), 'target')]
    val = {'num': N.atom('t.val'), 'zero': N.const(0)}.get(val, val) if isinstance(val, str) else val
    d = {'b': 'other', '_k': 'note', ('a', 'k'): 'r', 'ab': 's', ('k', 'x', 'm'): 't'}
    if attr != 'a':
        d['a'] = 'w'
    pres = I.choose(2, 'target in instance')
    if pres and val is not None:
        d[attr] = val
    return g, attr, val, d


def seen_ok(I, log, d, attr):
    if not log:
        raise Unsupported('the way an instance is categorized is not recognised')
    for _, x, _ in log:
        if not isinstance(x, PyDict):
            raise Unsupported('instances have another form')
        if I.dget(x, attr, None, Missing) is not Missing:
            return 'the instance is categorized with the value of %r to be predicted' % (attr,)
        for k in d:
            if k != attr and deep(I, I.dget(x, k, None, Missing)) != deep(I, d[k]):
                return 'the instance is categorized without %r' % (k,)
        for k, _ in x.d.values():
            if k not in d:
                return 'the instance is categorized with an attribute %r it does not have' % (k,)
    return None


def prob_scen(ctx, prog, kind):
    label = 'evaluation.probability on a %s tree' % kind

    def run(I):
        log = []
        g, attr, val, d = setup(I, kind, log, None)
        x = mkdict(I, d)
        s0 = deep(I, x)
        got = I.call(I.get(EV, 'probability'), [g.tree, x, attr, val], {})
        m = seen_ok(I, log, d, attr)
        if m:
            return m
        if deep(I, x) != s0:
            return 'the instance is changed'
        leaf = log[-1][2]
        want = prob_ref(I, g.tree, g.init[leaf.oid], attr, val, kind != 'cobweb')
        if not I.is_num(got):
            return 'returns %r' % (got,)
        s = same(I, got, want)
        if s is None:
            raise Unsupported('equal only under path conditions')
        return None if s else 'P(%s=%r) is %r instead of %r' % (attr, val, got, want)
    ok, bad = reporter(ctx, RULEP, label, 'probability')
    explore_into(ctx, prog, run, label, ok, bad)


def err_scen(ctx, prog, kind, fn):
    label = 'evaluation.%s on a %s tree' % (fn, kind)

    def run(I):
        log, pl = [], []
        g, attr, val, d = setup(I, kind, log, None)
        preds = [''.join(('v', 'v')), 'w', None, True] + ([N.atom('p.val'), N.const(0)] if kind != 'cobweb' else [])
        p = preds[I.choose(len(preds), 'prediction')]
        vn = I.is_num(val) and not isinstance(val, bool)
        pn = I.is_num(p) and not isinstance(p, bool)

        def predict(I, f, args, kw, node):
            a = list(args[1:])
            names = ('attr', 'choice_fn', 'allow_none')
            for i, nm in enumerate(names):
                if nm in kw:
                    a += [None] * (i + 1 - len(a))
                    a[i] = kw[nm]
            pl.append((args[0], a))
            return p
        for q in ('cobweb.CobwebNode', 'cobweb3.Cobweb3Node'):
            I.intercepts[PK + q + '.predict'] = predict
        x = mkdict(I, d)
        s0 = deep(I, x)
        exc = None
        try:
            got = I.call(I.get(EV, fn), [g.tree, x, attr, val], {})
        except PyRaise as e:
            exc = e.exc
        if not pl:
            raise Unsupported('predictions are made in another way')
        m = seen_ok(I, log, d, attr)
        if m:
            return m
        if deep(I, x) != s0:
            return 'the instance is changed'
        leaf = log[-1][2]
        for n, a in pl:
            if n is not leaf:
                return 'the prediction is not that of the concept the instance is categorized to'
            if not a or a[0] != attr:
                return 'another attribute is predicted: %r' % (a[:1],)
            if a[1:2] and a[1] not in ('most likely', 'm', None) or a[2:3] and a[2] is False:
                return 'the prediction is not the most likely value: %r' % (a[1:],)
        what = 'value %r predicted as %r' % (val, p)
        if (vn and p is None) or (val is None and pn):
            return None if exc is not None else '%s is given the score %r' % (what, got)
        if vn != pn:
            if vn or isinstance(val, bool):
                raise Prune()       # a number predicted as a nominal value has no difference
            want = N.const(1)
        elif vn:
            want = N.sub(I.num(val), I.num(p)) if hasattr(N, 'sub') else N.add(I.num(val), N.scale(I.num(p), -1))
        else:
            want = N.const(0 if type(val) is type(p) and val == p else 1)
        if exc is not None:
            return '%s raises %s(%s)' % (what, exc.cls.name, desc(exc.fields.get('args', ())))
        if not I.is_num(got):
            return '%s is given the score %r' % (what, got)
        g2 = I.num(got)
        if fn == 'error':
            s = same(I, got, want)
        elif fn == 'squared_error':
            s = same(I, got, N.mul(want, want))
        else:
            s = same(I, N.mul(g2, g2), N.mul(want, want))
            if s and (g2.hi < 0 or I.cmp_rel(got, 0) == frozenset('<')):
                return '%s is given the negative absolute error %r' % (what, got)
            if s and vn and pn and same(I, got, want) and I.cmp_rel(got, 0) - frozenset('>='):
                return '%s is given the signed error %r' % (what, got)
        if s is None:
            raise Unsupported('equal only under path conditions')
        return None if s else '%s is given the score %r' % (what, got)
    ok, bad = reporter(ctx, RULEP, label, fn)
    explore_into(ctx, prog, run, label, ok, bad)


def dict_scen(ctx, prog, fn):
    label = 'evaluation.%s of a component value' % fn

    def run(I):
        log = []
        quick_scores(I)
        pick_leaf(I, log)
        g = GTree(I, 'cobweb3', SPEC['cobweb3'], depth=2, rest=False, cvlo=30, shape=(False, False))
        try:
            got = I.call(I.get(EV, fn), [g.tree, mkdict(I, {'a': 'v'}), 'o', mkdict(I, {'k': 'v'})], {})
        except PyRaise:
            return None
        return 'a component value is given the score %r' % (got,)
    ok, bad = reporter(ctx, RULEP, label, fn)
    explore_into(ctx, prog, run, label, ok, bad)


# ------------------------------------------------------------ the evaluation
def inc_scen(ctx, prog, kind, n, rl, runs, rf, score):
    label = 'incremental_evaluation of %d instances, run_length=%d, runs=%s, randomize_first=%s (%s tree)' % (
        n, rl, runs, rf, kind)
    orders, moved = [], set()

    def run(I):
        log = []
        quick_scores(I)
        t = new_tree(I, kind)
        objs = [mkdict(I, dict({'b': 'u%d' % i}, **({} if i == 1 else {'a': ['v', False, 0, ''][i]}))) for i in range(n)]
        l = PyList(I, list(objs))

        def which(x):
            for i, o in enumerate(objs):
                if x is o or (isinstance(x, PyDict) and deep(I, x) == deep(I, o)):
                    return i
            return None

        def learn(I, f, args, kw, node):
            x = kw['instance'] if 'instance' in kw else args[1]
            log.append(('learn', which(x)))
            return I.getattr_(t, 'root')

        def clear(I, f, args, kw, node):
            log.append(('clear',))

        def sc(nm):
            def f(I, fn, args, kw, node):
                a = list(args) + [kw[k] for k in ('tree', 'instance', 'attr', 'val')[len(args):] if k in kw]
                s = I.fresh('score')
                log.append(('score', nm, a, s))
                return s
            return f
        for q in ('cobweb.CobwebTree', 'cobweb3.Cobweb3Tree', 'trestle.TrestleTree', 'dummy.DummyTree'):
            I.intercepts[PK + q + '.ifit'] = learn
            I.intercepts[PK + q + '.clear'] = clear
        for nm in ('probability', 'error', 'absolute_error', 'squared_error'):
            I.intercepts[EV + '.' + nm] = sc(nm)
        kw = {}
        if runs is not None:
            kw['runs'] = runs
        if rf is not None:
            kw['randomize_first'] = rf
        if score:
            kw['score'] = I.get(EV, score)
        before = [deep(I, o) for o in objs]
        R = I.call(I.get(EV, 'incremental_evaluation'), [t, l, 'a', rl], kw)
        if len(l._items) != n or any(x is not y for x, y in zip(l._items, objs)):
            return 'the list of instances passed in is changed'
        if [deep(I, o) for o in objs] != before:
            return 'the instances passed in are changed'
        if not isinstance(R, PyList):
            raise Unsupported('scores have another form')
        rows = [x for x, _ in I.iterate(R)]
        nr = 1 if runs is None else runs
        if len(rows) != nr:
            return '%d rows of scores for %d runs' % (len(rows), nr)
        m = min(rl, n)
        pos = 0
        first = None
        # split the history at the starts of the runs
        hist, cur = [], None
        for e in log:
            if e[0] == 'clear':
                if cur == []:
                    continue
                cur = []
                hist.append(cur)
            elif cur is None:
                return 'the first run starts with the tree as it was'
            else:
                cur.append(e)
        if len(hist) != nr:
            if nr == 0 and not hist:
                return None
            if m == 0:
                return None
            return 'the tree is emptied %d times for %d runs' % (len(hist), nr)
        for j, (h, row) in enumerate(zip(hist, rows)):
            vals = [x for x, _ in I.iterate(row)]
            if len(vals) != m:
                return 'run %d has %d scores, %d expected' % (j + 1, len(vals), m)
            S = [e for e in h if e[0] == 'score']
            L = [e for e in h if e[0] == 'learn']
            if len(S) != m:
                return 'run %d scores %d times, %d expected' % (j + 1, len(S), m)
            order = []
            for i, e in enumerate(S):
                if e[1] != (score or 'probability'):
                    return 'the score used is %s' % e[1]
                a = e[2]
                if len(a) != 4 or a[0] is not t or a[2] != 'a':
                    return 'the score is asked with other arguments'
                w = which(a[1])
                if w is None:
                    # the value itself may already have been taken out
                    w = next((q for q, o in enumerate(objs) if I.dget(o, 'b') == I.dget(a[1], 'b', None, None)), None)
                if w is None:
                    raise Unsupported('scored instance not recognised')
                order.append(w)
                val = I.dget(objs[w], 'a', None, None)
                if type(val) is not type(a[3]) or val != a[3]:
                    return 'instance %d with value %r is scored for the value %r' % (w, val, a[3])
                if vals[i] is not e[3] and same(I, vals[i], e[3]) is not True:
                    return 'entry %d of run %d is not the score of instance %d' % (i, j + 1, w)
                k = h.index(e)
                if [y[1] for y in h[:k] if y[0] == 'learn'] != order[:-1]:
                    return 'when instance %d is scored, the tree has learned %s and not %s' % (
                        w, [y[1] for y in h[:k] if y[0] == 'learn'], order[:-1])
            if len(set(order)) != len(order):
                return 'run %d uses an instance twice: %s' % (j + 1, order)
            if [y[1] for y in L][:m] != order and len(L) >= m or len(L) > m or len(L) < m - 1:
                return 'run %d learns %s' % (j + 1, [y[1] for y in L])
            if rf is False and j == 0 and order != list(range(m)):
                return 'the first run does not follow the given order: %s' % (order,)
            if j == 0:
                orders.append(tuple(order))
            else:
                moved.add((j, order != prev))
            prev = order
        return None
    ok, bad = reporter(ctx, RULEE, label, 'incremental_evaluation')
    und, v0 = sum(ctx.undecided.values()), len(ctx.violations)
    explore_into(ctx, prog, run, label, ok, bad, max_paths=4000)
    if und == sum(ctx.undecided.values()) and v0 == len(ctx.violations) and rf is not False and n >= 2 and rl > 1 \
            and runs != 0 and len(set(orders)) == 1:
        ctx.fail('incremental_evaluation', 'the first run is shuffled unless told otherwise',
                 '%s: the order is always %s' % (label, orders[0]), {'function': 'incremental_evaluation'})
    if und == sum(ctx.undecided.values()) and v0 == len(ctx.violations) and n >= 2 and rl > 1:
        for j in range(1, runs or 1):
            if (j, True) not in moved:
                ctx.fail('incremental_evaluation', 'later runs are shuffled', '%s: run %d always repeats the order of the one before' % (
                    label, j + 1), {'function': 'incremental_evaluation'})


def check(ctx, prog):
    from ..par import run_tasks
    ctx.rule('data flow of the target value: not visible to categorization; score = value number of the reference on the concept '
             'reached; history of clear/score/learn calls on every shuffle outcome')
    T = []
    for kind in ('cobweb', 'cobweb3', 'trestle'):
        T.append(('probability %s' % kind, lambda c, kind=kind: prob_scen(c, prog, kind)))
        for fn in ('error', 'absolute_error', 'squared_error'):
            T.append(('%s %s' % (fn, kind), lambda c, kind=kind, fn=fn: err_scen(c, prog, kind, fn)))
    for fn in ('probability', 'error', 'absolute_error', 'squared_error'):
        T.append(('component %s' % fn, lambda c, fn=fn: dict_scen(c, prog, fn)))
    for kind in ('cobweb', 'trestle'):
        for a in [(3, 2, None, None, None), (3, 3, 2, False, 'error'), (2, 5, 1, False, None), (2, 2, 2, True, 'squared_error'),
                  (4, 3, 1, False, 'absolute_error'), (0, 2, 1, None, None), (2, 0, 1, None, None), (2, 1, 3, None, None),
                  (2, 2, 0, None, None), (3, 1, 2, False, None)]:
            T.append(('inc %s %s' % (kind, a), lambda c, kind=kind, a=a: inc_scen(c, prog, kind, *a)))
    from .stale import tasks
    run_tasks(ctx, T + tasks(prog, (), ('evaluation.probability',)))
