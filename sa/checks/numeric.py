"""C13: numeric summaries are exact.  C14: probabilities are frequencies."""
import math
from .. import num as N
from ..values import *
from ..harness import *
from .scores import Flat, conv, attr_scale, sub, visible, OBJ, ustd

RULE13 = 'a numeric summary holds the exact count, mean and squared deviation of everything it was given'
REG = {'one': (1, 1), 'few': (2, 29), 'many': (30, 1e6)}


def cv(I, name, regime):
    """A summary in one of the regimes; returns (object, (n, s, q))."""
    C = I.get(PK + 'continuous_value', 'ContinuousValue')
    if regime == 'empty':
        o = I.call(C, [], {})
        known_layout(o, CV_FIELDS)
        return o, (N.const(0), N.const(0), N.const(0))
    if regime == 'one':
        x = N.atom(name + '.s')
        t = (N.const(1), x, N.mul(x, x))
    else:
        lo, hi = REG[regime]
        t = (N.atom(name + '.n', lo, hi), N.atom(name + '.s'), N.atom(name + '.q', 200))
    return cv_object(I, t[0], t[1], t[2], name), t


def stats(I, o):
    for f in CV_FIELDS:
        if f not in o.fields:
            raise Unsupported('numeric summaries have another representation')
    return cv_stats(I, o)


def plus3(a, b):
    return tuple(N.add(x, y) for x, y in zip(a, b))


def one3(I, x):
    x = I.num(x)
    return N.const(1), x, N.mul(x, x)


def dev(t):
    """Squared deviation from sufficient statistics."""
    n, s, q = t
    return sub(q, N.div(N.mul(s, s), n))


def scen_cv(ctx, prog, op):
    label = 'ContinuousValue.%s' % op

    def run(I):
        out = []
        C = I.get(PK + 'continuous_value', 'ContinuousValue')
        regs = ('empty', 'one', 'few', 'many')
        if op == 'new':
            o = I.call(C, [], {})
            return [('a new summary is empty', o, (N.const(0),) * 3)]
        ra = regs[I.choose(4, 'summary')]
        o, t = cv(I, 'a', ra)
        m = lambda nm, *a: I.call(I.getattr_(o, nm), list(a), {})
        if op == 'update':
            k = I.choose(5, 'value')
            x = [N.atom('x'), N.const(0), 3, o.fields['mean'], N.const(-2)][k]
            m('update', x)
            return [('one value is added', o, plus3(t, one3(I, x)))]
        if op == 'update_batch':
            k = I.choose(5, 'values')
            xs = [N.atom('x%d' % (i % 3)) for i in range(k)]
            l = PyList(I, list(xs)) if I.choose(2, 'tuple') == 0 else tuple(xs)
            m('update_batch', l)
            for x in xs:
                t = plus3(t, one3(I, x))
            return [('every value is added', o, t)]
        if op == 'combine':
            rb = regs[I.choose(4, 'other')]
            if ra == rb == 'empty':
                raise Prune()
            eq = I.choose(2, 'same mean') if 'empty' not in (ra, rb) else 0
            b, tb = cv(I, 'b', rb)
            if eq:
                n = tb[0]
                s = N.mul(n, N.div(t[1], t[0]))
                q = N.add(N.div(N.mul(s, s), n), N.atom('b.dev', 1)) if rb != 'one' else N.mul(s, s)
                tb = (n, s, q)
                b = cv_object(I, n, s, q, 'b')
            m('combine', b)
            return [('the other summary is added', o, plus3(t, tb)), ('the other summary is not changed', b, tb)]
        if op == 'combine self':
            if ra == 'empty':
                raise Prune()
            b = o if I.choose(2, 'itself') else m('copy')
            m('combine', b)
            return [('combining with an equal summary doubles it', o, plus3(t, t))]
        if op == 'copy':
            b = m('copy')
            if b is o or not isinstance(b, PyObj):
                return [('the copy is a new object', None, None)]
            x = N.atom('x')
            I.call(I.getattr_(b, 'update'), [x], {})
            y = N.atom('y')
            I.call(I.getattr_(b, 'update'), [y], {})
            m('update', y)
            return [('the copy is independent', b, plus3(plus3(t, one3(I, x)), one3(I, y))),
                    ('the original is independent', o, plus3(t, one3(I, y)))]
        # read-only statistics
        if ra == 'empty' and op in ('biased_std', 'scaled_biased_std', 'integral_of_gaussian_product'):
            raise Prune()
        mean = N.div(t[1], t[0]) if ra != 'empty' else N.const(0)
        ub = N.const(0) if ra in ('empty', 'one') else None
        if ub is None:
            ub = ustd(I, *t)
        bi = None if ra == 'empty' else N.const(0) if ra == 'one' else N.sqrt(N.div(dev(t), t[0]))
        keep = [('reading does not change the summary', o, t)]
        if op == 'unbiased_mean':
            return [('mean', m(op), mean)] + keep
        if op == 'unbiased_std':
            return [('unbiased standard deviation', m(op), ub)] + keep
        if op == 'biased_std':
            return [('standard deviation', m(op), bi)] + keep
        if op == 'scaled_unbiased_mean':
            sc = [N.atom('scale', 0.5), N.const(0), N.const(-1)][I.choose(3, 'scale')]
            e = sc if not sc.const else N.const(1)
            return [('scaled mean', m(op, N.atom('shift'), sc), N.div(sub(mean, N.atom('shift')), e))] + keep
        if op in ('scaled_biased_std', 'scaled_unbiased_std'):
            sc = [N.atom('scale', 0.5), N.const(0), N.const(-1)][I.choose(3, 'scale')]
            e = sc if not sc.const else N.const(1)
            return [('scaled standard deviation', m(op, sc), N.div(bi if 'unb' not in op else ub, e))] + keep
        if op == 'output_json':
            r = m(op)
            if not isinstance(r, PyDict):
                raise Unsupported('export has another form')
            g = lambda k: I.dget(r, k, None, None)
            return [('exported mean', g('mean'), mean), ('exported spread', g('std'), ub),
                    ('exported size', g('n'), t[0])] + keep
        if op == 'integral_of_gaussian_product':
            rb = regs[1 + I.choose(3, 'other')]
            b, tb = cv(I, 'b', rb)
            mb = N.div(tb[1], tb[0])
            sb = N.const(0) if rb == 'one' else ustd(I, *tb)
            pi = N.const(N.PI_D, 'float')
            nz = N.div(N.const(1), N.mul(N.const(4), pi))
            var = N.add(N.add(N.mul(ub, ub), N.mul(sb, sb)), N.add(nz, nz))
            d = sub(mean, mb)
            want = N.div(N.exp(N.scale(N.div(N.mul(d, d), N.scale(var, 2)), -1)),
                         N.sqrt(N.mul(N.scale(pi, 2), var)))
            got = m(op, b)
            rev = I.call(I.getattr_(b, op), [o], {})
            return [('integral of the product', got, want), ('integral of the product, reversed', rev, want)] + keep
        raise Unsupported(op)

    def ok(I, v, r):
        for what, got, want in v:
            if got is None:
                s = False
            elif isinstance(got, PyObj):
                g = stats(I, got)
                ss = [same(I, a, b) for a, b in zip(g, want)]
                s = False if False in ss else None if None in ss else True
                got = g
            else:
                if not I.is_num(got):
                    s = False
                else:
                    s = same(I, got, want)
            if s is True:
                ctx.ok()
            elif s is None:
                ctx.undec(label + ': equal only under path conditions')
            else:
                ctx.fail('continuous_value.ContinuousValue.%s' % op.split()[0], RULE13, '%s: %r instead of %r' % (
                    what, got, want), {'choices': trace_of(r), 'function': op})

    def bad(I, v, r):
        ctx.fail(v.fields.get('__where__', '?'), RULE13, '%s: raises %s(%s)' % (label, v.cls.name, desc(
            v.fields.get('args', ()))), {'choices': trace_of(r)})
    explore_into(ctx, prog, run, label, ok, bad)


def scen_c4(ctx, prog):
    """The correction factor, at every tabulated size and beyond."""
    ns = list(range(2, 60)) + [100, 1000]

    def run(I):
        n = ns[I.choose(len(ns), 'size')]
        f = I.choose(2, 'float')
        v = I.call(I.get(PK + 'utils', 'c4'), [N.const(float(n)) if f else n], {})
        return n, v

    def ok(I, v, r):
        n, x = v
        ex = math.sqrt(2.0 / (n - 1)) * math.exp(math.lgamma(n / 2.0) - math.lgamma((n - 1) / 2.0))
        if not I.is_num(x) or not I.num(x).const:
            raise Unsupported('correction is not a constant')
        d = abs(float(I.num(x).c) - ex)
        if d > 1e-9 and (n < 30 or d > 0.01):
            ctx.fail('utils.c4', 'the correction for small samples is c4(n)', 'c4(%d) is %s, expected %s' % (
                n, float(I.num(x).c), ex), {'function': 'c4'})
        else:
            ctx.ok()

    def bad(I, v, r):
        ctx.fail('utils.c4', 'the correction for small samples is c4(n)', 'raises %s for size %s' % (
            v.cls.name, ns[r.trace[0][0]]), {'function': 'c4'})
    explore_into(ctx, prog, run, 'c4', ok, bad)

    def run2(I):
        n = [1, 0, -3, N.const(1.0), N.const(0.5)][I.choose(5, 'size')]
        I.call(I.get(PK + 'utils', 'c4'), [n], {})

    def ok2(I, v, r):
        ctx.fail('utils.c4', 'no correction exists for samples below two', 'no error', {'function': 'c4'})

    def bad2(I, v, r):
        ctx.ok()
    explore_into(ctx, prog, run2, 'c4 of no sample', ok2, bad2)


def scen_isnum(ctx, prog):
    cases = [(3, True), (N.const(2.5), True), (N.atom('x'), True), (True, False), (False, False), ('v', False),
             ('3', False), (None, False), (NaN(), False), (('a', 'b'), False), (0, True), (N.const(0.0), True),
             (Inf(1), True), (N.atom('f', t='frac'), True)]

    def run(I):
        c = cases[I.choose(len(cases), 'value')]
        return c, I.truth(I.call(I.get(PK + 'utils', 'isNumber'), [c[0]], {}))

    def ok(I, v, r):
        (x, want), got = v
        if bool(got) != want:
            ctx.fail('utils.isNumber', 'numbers are numeric, everything else (booleans, NaN, text) is nominal',
                     '%r is %staken for a number' % (x, '' if got else 'not '), {'function': 'isNumber'})
        else:
            ctx.ok()

    def bad(I, v, r):
        ctx.fail(v.fields.get('__where__', '?'), 'every value can be classified', 'raises %s' % v.cls.name, {
            'function': 'isNumber'})
    explore_into(ctx, prog, run, 'isNumber', ok, bad)


def scen_lists(ctx, prog, fn):
    """utils.mean and utils.std over lists of generic numbers."""
    def run(I):
        k = 1 + I.choose(3, 'length')
        xs = [N.atom('x%d' % i) for i in range(k)]
        return xs, I.call(I.get(PK + 'utils', fn), [PyList(I, list(xs))], {})

    def ok(I, v, r):
        xs, got = v
        n = N.const(len(xs))
        t = (N.const(0),) * 3
        for x in xs:
            t = plus3(t, one3(I, x))
        want = N.div(t[1], n) if fn == 'mean' else (
            N.sqrt(N.div(dev(t), n)) if len(xs) > 1 else N.const(0))
        s = same(I, got, want)
        if s is True:
            ctx.ok()
        elif s is None:
            ctx.undec('%s: equal only under path conditions' % fn)
        else:
            ctx.fail('utils.' + fn, 'mean and standard deviation of a list', '%r instead of %r' % (got, want), {
                'function': fn})

    def bad(I, v, r):
        ctx.fail(v.fields.get('__where__', '?'), 'mean and standard deviation of a list', 'raises %s' % v.cls.name,
                 {'function': fn})
    explore_into(ctx, prog, run, 'utils.' + fn, ok, bad)


CVOPS = ('new', 'update', 'update_batch', 'combine', 'combine self', 'copy', 'unbiased_mean', 'unbiased_std', 'biased_std',
         'scaled_unbiased_mean', 'scaled_biased_std', 'scaled_unbiased_std', 'output_json',
         'integral_of_gaussian_product')


def check_cv(ctx, prog):
    from ..par import run_tasks
    ctx.rule('value numbers of (count, sum, sum of squares) after every operation on a generic summary = those of the '
             'reference; derived statistics have the value numbers of their definitions; c4 at every size')
    T = [(op, lambda c, op=op: scen_cv(c, prog, op)) for op in CVOPS]
    T.append(('c4', lambda c: scen_c4(c, prog)))
    T.append(('isNumber', lambda c: scen_isnum(c, prog)))
    for fn in ('mean', 'std'):
        T.append((fn, lambda c, fn=fn: scen_lists(c, prog, fn)))
    run_tasks(ctx, T)


# --------------------------------------------------------------------- C14
RULE14 = 'probabilities and value distributions are the observed frequencies'


def prob_ref(I, tree, stat, attr, val, numeric):
    n = I.num(stat.count)
    ent = {k[1]: x for k, x in stat.t.items() if k[0] == attr}
    if val is None:
        c = N.const(0)
        for x in ent.values():
            c = N.add(c, I.num(x[0]))
        return N.div(sub(n, c), n)
    isnum = I.is_num(val) and not isinstance(val, bool)
    if numeric and isnum:
        if CV not in ent:
            return N.const(0)
        t = tuple(map(I.num, ent[CV]))
        sc = attr_scale(I, tree, attr)
        one = t[0].const and t[0].c == 1
        sd = N.const(0) if one else N.div(ustd(I, *t), sc)
        mean = N.div(t[1], t[0])
        pi = N.const(N.PI_D, 'float')
        var = N.add(N.mul(sd, sd), N.div(N.const(1), N.scale(pi, 2)))
        d = N.div(sub(I.num(val), mean), sc)
        dens = N.div(N.exp(N.scale(N.div(N.mul(d, d), N.scale(var, 2)), -1)), N.sqrt(N.mul(N.scale(pi, 2), var)))
        return N.mul(N.div(t[0], n), dens)
    x = ent.get(tkey(val))
    if x is None:
        return N.const(0)
    return N.div(I.num(x[0]), n)


PCFG = {
    'cobweb': [
        (dict(specs=[{'a': {'v': 'n', 'w': 'n', True: 'n'}, 'b': {'u': 'n'}, '_h': {'v': 'n'}, ('r', '?o1'): {'v': 'n'}},
                     {'a': {'v': 'n'}}]), {}),
    ],
    'cobweb3': [
        (dict(specs=[{'a': {'v': 'n', 'w': 'n', True: 'n'}, 'x': {CV: CV}, 'm': {CV: CV, 'v': 'n'}, '_h': {CV: CV},
                      OBJ: {CV: CV}}, {'a': {'v': 'n'}, 'x': {CV: CV}}], regime=rg, tree_kw=tk,
              scales={'x': sc, 'm': 'big', '_h': 'big', 'w': 'big'}), {})
        for rg, tk, sc in (('big', {'scaling': 0.5}, 'big'), ('small', {'scaling': 0.25}, 'big'),
                           ('one', {'scaling': 0.5}, 'one'), ('big', {'scaling': 0.5}, 2), ('small', {'scaling': 0.5}, 3), ('big', {'scaling': False}, 'big'),
                           ('big', {'scaling': 1}, 'big'))
    ] + [
        (dict(specs=[{OBJ: {CV: CV}, 'x': {CV: CV}}, {'a': {'v': 'n'}}], tree_kw={'scaling': 0.5, 'inner_attr_scaling': False},
              scales={'x': 'big', '#obj': 'big'}), {}),
    ],
    'dummy': [
        (dict(specs=[{'a': {'v': 'n', True: 'n'}, 'x': {CV: CV}, OBJ: {CV: CV}}, {'a': {'v': 'n'}, 'x': {CV: CV}}],
              tree_kw={}, scales={'x': 'big', 'w': 'big'}), {}),
    ],
}
PCFG['trestle'] = PCFG['dummy']


def flat_of(I, kind, cfg):
    c = dict(cfg)
    if 'tree_kw' in c:
        c['tree_kw'] = conv(c['tree_kw'])
    sc = c.get('scales')
    obj = sc and '#obj' in sc
    if obj:
        c['scales'] = {k: v for k, v in sc.items() if k != '#obj'}
    F = Flat(I, kind, **c)
    if obj:
        o = cv_object(I, N.atom('SO.n', 30, 1e6), N.atom('SO.s'), N.atom('SO.q', 200), 'SO')
        N.B['SO.mq'] = (1e-30, INF)
        o.fields['meanSq'].lo = 1e-30
        I.dset(tree_scales(I, F.tree), OBJ, o, raw=True)
    return F


def scen_prob(ctx, prog, kind, cfg, op):
    label = '%s of a %s concept' % (op, kind)
    numeric = kind != 'cobweb'

    def run(I):
        F = flat_of(I, kind, cfg)
        k = I.choose(len(F.kids) + 1, 'concept')
        n, st = (F.n, F.stat) if k == 0 else F.kids[k - 1][:2]
        attrs = sorted({a for a, _ in st.t}, key=str) + ['zz']
        a = attrs[I.choose(len(attrs), 'attribute')]
        if op == 'probability':
            vals = [None, 'v', 'w', 'unseen', True, False]
            if numeric:
                vals += [N.atom('pv'), N.const(0), 3]
            else:
                vals += [0]
            v = vals[I.choose(len(vals), 'value')]
            got = I.call(I.getattr_(n, op), [a, v], {})
            if not numeric and v == 0 and v is not False:
                return [('P(%s=%r)' % (a, v), got, N.const(0))]
            return [('P(%s=%r)' % (a, v), got, prob_ref(I, F.tree, st, a, v, numeric))]
        if op == 'get_weighted_values':
            an = I.choose(3, 'allow none')
            args = [[a], [a, True], [a, False]][an]
            got = I.call(I.getattr_(n, op), args, {})
            items = [x for x, _ in I.iterate(got)]
            w = {}
            for it in items:
                if not isinstance(it, tuple) or len(it) != 2:
                    raise Unsupported('value distribution has another form')
                k2 = I.hkey(it[0])
                w[k2] = N.add(w[k2], I.num(it[1])) if k2 in w else I.num(it[1])
            want = {}
            ent = {k3[1]: x for k3, x in st.t.items() if k3[0] == a}
            for v, x in ent.items():
                want[I.hkey(v)] = N.div(I.num(x[0]), I.num(st.count))
            if not ent:
                want[I.hkey(None)] = N.const(1)
            elif an != 2:
                want[I.hkey(None)] = prob_ref(I, F.tree, st, a, None, numeric)
            out = []
            for k2 in set(w) | set(want):
                out.append(('weight of %s' % (k2[-1:],), w.get(k2, N.const(0)), want.get(k2, N.const(0))))
            return out
        raise Unsupported(op)

    def ok(I, v, r):
        for what, got, want in v:
            if not I.is_num(got) or isinstance(got, (Inf, NaN)):
                s = False
            else:
                s = same(I, got, want)
            if s is True:
                ctx.ok()
            elif s is None:
                ctx.undec(label + ': equal only under path conditions')
            else:
                ctx.fail('%s (%s)' % (op, kind), RULE14, '%s: %r instead of %r' % (what, got, want), {
                    'choices': trace_of(r), 'function': op})

    def bad(I, v, r):
        ctx.fail(v.fields.get('__where__', '?'), RULE14, '%s: raises %s(%s)' % (label, v.cls.name, desc(
            v.fields.get('args', ()))), {'choices': trace_of(r)})
    explore_into(ctx, prog, run, label, ok, bad)


def leaf_stat(I, name, spec, extra):
    """A table whose count is what its first attribute holds, and extra instances without that attribute."""
    s = Stat()
    s.count = N.const(0)
    for i, (a, vals) in enumerate(spec.items()):
        tot = N.const(0)
        for v, k in vals.items():
            if v == CV:
                x = tuple(N.atom('%s.%s.%s' % (name, a, z), lo) for z, lo in (('n', 30), ('s', -INF), ('q', 200)))
            else:
                x = (N.atom('%s.%s.%s' % (name, a, v), 1),) if k == 'n' else (s.count,)
            s.t[a, v] = x
            tot = N.add(tot, x[0])
        if i == 0:
            s.count = N.add(tot, N.const(extra))
    return s


LL = {'cobweb': [({'a': {'v': 'n'}, 'b': {'u': 'all'}}, 0), ({'a': {'v': 'n', 'w': 'n'}, 'b': {'u': 'all'}, '_h': {'v': 'all'}}, 0),
                 ({'a': {'v': 'n', 'w': 'n', True: 'n'}}, 3)],
      'cobweb3': [({'a': {'v': 'n'}, 'b': {'u': 'all'}}, 0), ({'x': {CV: CV}, 'a': {'v': 'all'}, '_h': {'v': 'all'}}, 0),
                  ({'x': {CV: CV, 'v': 'n'}}, 2), ({OBJ: {CV: CV}}, 1), ({'a': {'v': 'n', False: 'n'}}, 2)]}
OTHER = {'cobweb': [{}, {'a': {'v': 'n'}}, {'a': {'w': 'n', 'z': 'n'}, 'b': {'u': 'all'}, 'c': {'v': 'all'}}],
         'cobweb3': [{}, {'a': {'v': 'n'}}, {'x': {CV: CV}, 'a': {'v': 'all'}}, {'x': {'v': 'n'}, 'a': {'z': 'all'}}, {OBJ: {CV: CV}}]}


def scen_ll(ctx, prog, kind, leaf, extra, other):
    """Log likelihood of a leaf in a concept it belongs to."""
    label = 'log_likelihood of a leaf with %s (%d without) beside %s in a %s concept' % (leaf, extra, other, kind)
    numeric = kind != 'cobweb'

    def run(I):
        ls = leaf_stat(I, 'leaf', leaf, extra)
        kw = dict(tree_kw={'scaling': N.const(0.5)}, scales={'x': 'big'}) if numeric else {}
        F = Flat(I, kind, [leaf_stat(I, 'o', other, 4), ls], **kw)
        st = F.stat
        node = F.kids[1][0]
        if I.choose(2, 'in itself'):
            got = I.call(I.getattr_(node, 'log_likelihood'), [node], {})
            st = ls
        else:
            got = I.call(I.getattr_(F.n, 'log_likelihood'), [node], {})
        tot = N.const(0)
        for x in sorted({y for y, _ in st.t} | {y for y, _ in ls.t}, key=str):
            if not visible(x):
                continue
            for v in [None] + [v for y, v in ls.t if y == x]:
                if v == CV:
                    p = N.mul(N.div(I.num(st.t[x, CV][0]), I.num(st.count)), N.div(I.num(ls.t[x, CV][0]), I.num(ls.count)))
                    tot = N.add(tot, N.log(N.mul(p, gauss_ref(I, st.t[x, CV], ls.t[x, CV]))))
                    continue
                po = prob_ref(I, F.tree, ls, x, v, False)
                if po.const and po.c == 0:
                    continue
                tot = N.add(tot, N.log(N.mul(po, prob_ref(I, F.tree, st, x, v, False))))
        return got, tot

    def ok(I, v, r):
        got, want = v
        s = same(I, got, want) if I.is_num(got) and not isinstance(got, (Inf, NaN)) else False
        if s is True:
            ctx.ok()
        elif s is None or forked(r):
            ctx.undec(label + ': equal only under path conditions')
        else:
            ctx.fail('log_likelihood (%s)' % kind, RULE14, '%s: %r instead of %r' % (label, got, want), {'choices': trace_of(r), 'function': 'log_likelihood'})

    def forked(r):
        # a comparison the facts about counts do not settle: the path may be impossible
        return any(l != 'in itself' for _, n, l in r.trace if n > 1)

    def bad(I, v, r):
        if forked(r):
            return ctx.undec(label + ': raises under path conditions')
        ctx.fail(v.fields.get('__where__', '?'), RULE14, '%s: raises %s(%s)' % (label, v.cls.name, desc(
            v.fields.get('args', ()))), {'choices': trace_of(r)})
    explore_into(ctx, prog, run, label, ok, bad)


def gauss_ref(I, t1, t2):
    t1, t2 = tuple(map(I.num, t1)), tuple(map(I.num, t2))
    pi = N.const(N.PI_D, 'float')
    nz = N.div(N.const(1), N.mul(N.const(4), pi))
    s1 = N.const(0) if t1[0].const and t1[0].c == 1 else ustd(I, *t1)
    s2 = N.const(0) if t2[0].const and t2[0].c == 1 else ustd(I, *t2)
    var = N.add(N.add(N.mul(s1, s1), N.mul(s2, s2)), N.add(nz, nz))
    d = sub(N.div(t1[1], t1[0]), N.div(t2[1], t2[0]))
    return N.div(N.exp(N.scale(N.div(N.mul(d, d), N.scale(var, 2)), -1)), N.sqrt(N.mul(N.scale(pi, 2), var)))


def check_prob(ctx, prog):
    from ..par import run_tasks
    ctx.rule('value number of every probability, distribution weight = that of the reference frequency or density over '
             'the generic count table')
    T = []
    for kind in ('cobweb', 'cobweb3', 'trestle', 'dummy'):
        for i, (cfg, _) in enumerate(PCFG[kind]):
            for op in ('probability', 'get_weighted_values'):
                T.append(('%s %d %s' % (kind, i, op), lambda c, kind=kind, cfg=cfg, op=op: scen_prob(c, prog, kind, cfg, op)))
    for kind in ('cobweb', 'cobweb3', 'trestle'):
        k2 = 'cobweb' if kind == 'cobweb' else 'cobweb3'
        for leaf, extra in LL[k2]:
            for other in OTHER[k2]:
                T.append(('%s log_likelihood' % kind, lambda c, a=(kind, leaf, extra, other): scen_ll(c, prog, *a)))
    from .stale import tasks
    run_tasks(ctx, T + tasks(prog, ('probability', 'get_weighted_values'), ()))
