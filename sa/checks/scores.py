"""C05: scores are the documented category utility.

The abstract value of every score function, as a term over generic counts,
must have the value number of the category-utility formula applied to the
tree the operation would produce.
"""
from .. import num as N
from ..values import *
from ..harness import *

KINDS = ('cobweb', 'cobweb3')
OBJ = ('x', '?o1')


def sub(a, b):
    return N.add(a, b, -1)


def visible(attr):
    return attr[0] != '_'


def ustd(I, n, s, q):
    """Unbiased standard deviation from sufficient statistics."""
    if '<' in I.cmp_rel(n, 2):
        if I.cmp_rel(n, 2) == frozenset('<'):
            return N.const(0)
        raise Unsupported('count regime not fixed')
    ms = sub(q, N.div(N.mul(s, s), n))
    sd = N.sqrt(N.div(ms, sub(n, N.const(1))))
    c4 = I.num(I.call(I.get(PK + 'utils', 'c4'), [n], {}))
    return N.div(sd, c4)


def attr_scale(I, tree, attr):
    """Scale of a numeric attribute: spread of everything seen, in units of
    the configured scaling; 1 when scaling is off or the spread is nil."""
    sc = tree.fields.get('scaling')
    if not sc:
        return N.const(1)
    inner = attr
    if tree.fields.get('inner_attr_scaling') and isinstance(attr, tuple):
        inner = attr[0]
    cv = I.dget(tree_scales(I, tree), inner, None, None)
    if cv is None:
        return N.const(1)
    over = getattr(I, 'scale_ref', None) or {}
    n, s, q = over[inner] if inner in over else cv.meta[1:]
    u = ustd(I, I.num(n), I.num(s), I.num(q))
    if u.const and u.c == 0:
        return N.const(1)
    return N.div(u, I.num(sc))


def ecg(I, tree, stat):
    """Reference: mean over visible attributes of the expected number of
    correct guesses."""
    attrs, tot = set(), N.const(0)
    pi = N.const(N.PI_D, 'float')
    for (a, v), x in stat.t.items():
        if all(vk(y) == '0' for y in x):
            continue
        if not visible(a):
            continue
        attrs.add(a)
        p = N.div(I.num(x[0]), I.num(stat.count))
        if len(x) == 1:
            tot = N.add(tot, N.mul(p, p))
            continue
        sd = N.div(ustd(I, *map(I.num, x)), attr_scale(I, tree, a))
        sd = N.sqrt(N.add(N.mul(sd, sd), N.div(N.const(1), N.mul(N.const(4), pi))))
        g = N.div(N.const(1), N.mul(N.mul(N.const(2), N.sqrt(pi)), sd))
        tot = N.add(tot, N.mul(N.mul(p, p), g))
    if not attrs:
        return N.const(0)
    return N.div(tot, N.const(len(attrs)))


def cu(I, tree, stat, kids):
    """kids: list of (stat, multiplicity or None)."""
    if not kids:
        return N.const(0)
    tot = N.const(0)
    n = N.const(0)
    for k, m in kids:
        x = N.mul(N.div(I.num(k.count), I.num(stat.count)), ecg(I, tree, k))
        if m is None:
            n = N.add(n, N.const(1))
        else:
            n = N.add(n, m)
            x = N.mul(x, m)
        tot = N.add(tot, x)
    return N.div(sub(tot, ecg(I, tree, stat)), n)


def rstat(I, name, spec, regime):
    s = Stat()
    s.count = N.atom(name + '.n', 1)
    for a, vals in spec.items():
        an = str(a)
        for v, kind in vals.items():
            if kind == CV:
                if regime == 'one':
                    x = N.atom('%s.%s.s' % (name, an))
                    s.t[a, v] = (N.const(1), x, N.mul(x, x))
                else:
                    lo, hi = (30, INF) if regime == 'big' else (2, 5)
                    s.t[a, v] = (N.atom('%s.%s.n' % (name, an), lo, hi), N.atom('%s.%s.s' % (name, an)),
                                 N.atom('%s.%s.q' % (name, an), 200))
            else:
                s.t[a, v] = (N.atom('%s.%s.%s' % (name, an, v), 1),)
    return s


class Flat(object):
    """A concept with explicit children (each with a table), optionally a
    summary of arbitrarily many more, and grandchildren below the first."""

    def __init__(self, I, kind, specs, rest=None, grand=None, regime='big', tree_kw=None, scales=None):
        self.I = I
        self.tree = new_tree(I, kind, **(tree_kw or {}))
        self.cls = I.getattr_(I.getattr_(self.tree, 'root'), '__class__')
        if scales:
            for a, reg in scales.items():
                if reg == 'one':
                    x = N.atom('S.%s.s' % a)
                    t = (N.const(1), x, N.mul(x, x))
                elif isinstance(reg, int):
                    t = (N.const(reg), N.atom('S.%s.s' % a), N.atom('S.%s.q' % a, 200))
                else:
                    t = (N.atom('S.%s.n' % a, 30, 1e6), N.atom('S.%s.s' % a), N.atom('S.%s.q' % a, 200))
                o = cv_object(I, t[0], t[1], t[2], 'S.' + a)
                if reg != 'one':
                    N.B['S.' + a + '.mq'] = (1e-30, INF)
                    o.fields['meanSq'].lo = 1e-30
                I.dset(tree_scales(I, self.tree), a, o, raw=True)
        I.region = 'init'
        self.kids = []
        self.gkids = []
        tot = Stat()
        tot.count = N.const(0)
        for i, sp in enumerate(specs):
            nm = 'c%d' % i
            if i == 0 and grand:
                st = Stat()
                st.count = N.const(0)
                for j, gs in enumerate(grand):
                    g = rstat(I, 'g%d' % j, gs, regime)
                    self.gkids.append((self.node('g%d' % j, g), g, None))
                    st = stat_comb(I, st, g)
            else:
                st = sp if isinstance(sp, Stat) else rstat(I, nm, sp, regime)
            self.kids.append((self.node(nm, st), st, None))
            tot = stat_comb(I, tot, st)
        if rest is not None:
            m = N.atom('m', 0, INF, 'int')
            st = rstat(I, 'R', rest, regime)
            self.kids.append((self.node('R', st, m), st, m))
            tot = stat_comb(I, tot, st, 1, m)
        self.stat = tot
        self.n = self.node('p', tot)
        self.link(self.n, self.kids)
        if self.gkids:
            self.link(self.kids[0][0], self.gkids)
        I.setattr_(self.tree, 'root', self.n)
        self.nodes = [self.n] + [k[0] for k in self.kids + self.gkids]
        self.state0 = {n.oid: node_state(I, n) for n in self.nodes}
        self.kidsnap = {n.oid: kid_ids(n.fields['children']._items) for n in self.nodes}
        I.region = 'run'

    def link(self, p, kids):
        I = self.I
        p.fields['children'] = PyList(I, [c if m is None else Summ(m, c) for c, _, m in kids])
        for c, _, _ in kids:
            c.fields['parent'] = p

    def node(self, name, st, m=None):
        I = self.I
        n = I.call(self.cls, [], {})
        known_layout(n, NODE_FIELDS)
        n.tag = name
        n.summ = m
        n.fields['count'] = st.count
        n.fields['tree'] = self.tree
        av = PyDict(I)
        av.tag = name + '.av'
        av.summ = m
        GTree.fill(self, av, st, name, m)
        n.fields['av_counts'] = av
        return n


A = {'a': {'v': 'n', 'w': 'n'}, 'b': {'u': 'n'}}
A2 = {'a': {'v': 'n'}, '_h': {'v': 'n'}}
A3 = {'b': {'u': 'n', 'z': 'n'}}
X = {'a': {'v': 'n'}, 'x': {CV: CV}}
X2 = {'a': {'w': 'n'}, 'x': {CV: CV}, '_h': {CV: CV}}
XO = {OBJ: {CV: CV}, 'a': {'v': 'n'}}
XM = {'x': {CV: CV, 'v': 'n'}}
OBJ3 = ('x', '?o1', '?o2')
XO3 = {OBJ3: {CV: CV}, 'x': {CV: CV}}

CONFIGS = {
    'cobweb': [
        dict(name='nominal', specs=[A, A2], rest=A, grand=None),
        dict(name='nominal, uneven tables', specs=[A, A3, A2], rest=None, grand=None),
        dict(name='nominal, nested', specs=[A, A], rest=A3, grand=[A, A2]),
        dict(name='only hidden', specs=[{'_h': {'v': 'n'}}, A], rest=None, grand=None),
    ],
    'cobweb3': [
        dict(name='mixed', specs=[X, X2], rest=X, grand=None, tree_kw={'scaling': 0.5}, scales={'x': 'big'}),
        dict(name='mixed, few samples', specs=[X, X2], rest=None, grand=None, regime='small',
             tree_kw={'scaling': 0.5}, scales={'x': 'big'}),
        dict(name='mixed, single samples', specs=[X, X2], rest=None, grand=[X, X], regime='one',
             tree_kw={'scaling': 0.5}, scales={'x': 'one'}),
        dict(name='mixed, two values for the scale', specs=[X, X2], rest=None, grand=None, tree_kw={'scaling': 0.5}, scales={'x': 2}),
        dict(name='mixed, three values for the scale', specs=[X, XM], rest=None, grand=None, tree_kw={'scaling': 0.5}, scales={'x': 3}),
        dict(name='no scaling', specs=[X, XM], rest=X, grand=[X, X2], tree_kw={'scaling': False}, scales={'x': 'big'}),
        dict(name='object attributes', specs=[XO, X], rest=None, grand=None, tree_kw={'scaling': 0.5},
             scales={'x': 'big'}),
        dict(name='object attributes, own scales', specs=[XO, XO], rest=None, grand=None,
             tree_kw={'scaling': 0.25, 'inner_attr_scaling': False}, scales={'x': 'big'}),
        dict(name='nominal', specs=[A, A2], rest=A3, grand=None),
        dict(name='scaled to one', specs=[X, X2], rest=X, grand=None, tree_kw={'scaling': 1}, scales={'x': 'big'}),
        dict(name='scaled to one, object attributes', specs=[XO, X], rest=None, grand=None, tree_kw={'scaling': True},
             scales={'x': 'big'}),
        dict(name='relations with numbers', specs=[XO3, X], rest=None, grand=None, tree_kw={'scaling': 0.5}, scales={'x': 'big'}),
    ],
}
INSTS = {
    'cobweb': [{'a': 'v'}, {'a': 'new', 'c': 'v'}, {'_h': 'v', 'b': 'u'}, {}],
    'cobweb3': [{'a': 'v', 'x': 'num'}, {'x': 'v', 'y': 'num'}, {'_h': 'num', OBJ: 'num'}, {'a': True}],
}
OPS = ('category_utility', 'expected_correct_guesses', 'cu_for_insert', 'cu_for_new_child', 'cu_for_merge',
       'cu_for_split', 'cu_for_fringe_split', 'two_best_children', 'relative_cu_for_insert')


def conv(kw):
    return {k: (N.const(v) if isinstance(v, float) else v) for k, v in (kw or {}).items()}


def scen(ctx, prog, kind, cfg, op):
    label = '%s on a %s concept (%s)' % (op, kind, cfg['name'])
    c = {k: v for k, v in cfg.items() if k != 'name'}

    def run(I):
        c2 = dict(c, tree_kw=conv(c.get('tree_kw')))
        F = Flat(I, kind, **c2)
        T, S = F.tree, F.stat
        kids = [(st, m) for _, st, m in F.kids]
        n = F.n
        il = INSTS[kind] if op not in ('category_utility', 'expected_correct_guesses', 'cu_for_split') else [{}]
        d = il[I.choose(len(il), 'instance')]
        d = {a: (N.atom('i.' + str(a)) if v == 'num' else v) for a, v in d.items()}
        ist = instance_stat(I, d, kind != 'cobweb')
        inst = lambda: mkdict(I, d)
        S1 = stat_comb(I, S, ist)
        call = lambda *a: I.call(I.getattr_(n, op), list(a), {})

        def insert(i):
            k2 = list(kids)
            k2[i] = (stat_comb(I, kids[i][0], ist), None)
            return cu(I, T, S1, k2)
        conc = [i for i, k in enumerate(F.kids) if k[2] is None]
        if op == 'category_utility':
            leaf = I.choose(2, 'leaf?')
            if leaf:
                return [(I.call(I.getattr_(F.kids[1][0], op), [], {}), N.const(0))]
            return [(call(), cu(I, T, S, kids))]
        if op == 'expected_correct_guesses':
            out = [(call(), ecg(I, T, S))]
            for k, st, m in F.kids:
                if m is None:
                    out.append((I.call(I.getattr_(k, op), [], {}), ecg(I, T, st)))
            return out
        if op == 'cu_for_insert':
            i = conc[I.choose(len(conc), 'child')]
            return [(call(F.kids[i][0], inst()), insert(i))]
        if op == 'cu_for_new_child':
            return [(call(inst()), cu(I, T, S1, kids + [(ist, None)]))]
        if op == 'cu_for_merge':
            if len(F.kids) < 3:
                pass
            i = I.choose(2, 'order')
            a, b = F.kids[i], F.kids[1 - i]
            mg = stat_comb(I, stat_comb(I, a[1], b[1]), ist)
            return [(call(a[0], b[0], inst()), cu(I, T, S1, [(mg, None)] + kids[2:]))]
        if op == 'cu_for_split':
            if not F.gkids:
                raise Prune()
            want = kids[1:] + [(st, m) for _, st, m in F.gkids]
            return [(call(F.kids[0][0]), cu(I, T, S, want))]
        if op == 'cu_for_fringe_split':
            lf = F.kids[1]
            if lf[2] is not None:
                raise Prune()
            v = I.call(I.getattr_(lf[0], op), [inst()], {})
            return [(v, cu(I, T, stat_comb(I, lf[1], ist), [(lf[1], None), (ist, None)]))]
        if op == 'two_best_children':
            r = call(inst())
            if not isinstance(r, tuple) or len(r) != 3:
                raise Unsupported('two_best_children has another interface')
            i = next((j for j, k in enumerate(F.kids) if k[0] is r[1]), None)
            if i is None:
                raise Unsupported('best child not identified')
            k2 = list(kids)
            k2[i] = (stat_comb(I, kids[i][0], ist), None)
            if kids[i][1] is not None:
                raise Prune()
            return [(r[0], cu(I, T, S1, k2))]
        # relative scores order the children as the insertion scores do
        vals = [I.num(call(F.kids[i][0], inst())) for i in conc]
        want = [insert(i) for i in conc]
        out = []
        for i in range(1, len(conc)):
            dv, dw = sub(vals[i], vals[0]), sub(want[i], want[0])
            out.append((dv, dw, 'rel'))
        return out

    def ok(I, v, r):
        if v and len(v[0]) == 3:
            ks = set()
            for dv, dw, _ in v:
                if dw.const and dw.c == 0:
                    if not (dv.const and dv.c == 0):
                        ks.add('differs where the insertion scores tie')
                    continue
                k = N.div(dv, dw)
                ks.add(k.key() if k.v > 0 else 'not increasing')
            bad = [k for k in ks if not k[0].isdigit()]
            if bad or len(ks) > 1:
                report(I, r, 'relative scores are not an increasing affine image of the insertion scores%s' % (
                    ' (%s)' % bad[0] if bad else ''))
            else:
                ctx.ok()
            return
        for got, want in v:
            s = same(I, got, want)
            if s is True:
                ctx.ok()
            elif s is None:
                ctx.undec(label + ': equal only under path conditions')
            else:
                report(I, r, 'the abstract value %r is not that of the category utility of the resulting partition '
                             '(%r)' % (got, want))
        ctx.sample('%s: %s' % (label, ' '.join(trace_of(r))))

    def report(I, r, msg):
        fs = sorted(f.replace(PK, '') for f in r.I.functions if '.Cobweb' in f and 'Tree' not in f)
        ctx.fail('%s (through %s)' % (op, ', '.join(fs)), 'scores are the category utility of the result', msg,
                 {'scenario': label, 'choices': trace_of(r), 'function': op})

    def bad(I, v, r):
        ctx.fail(v.fields.get('__where__', '?'), 'scores exist for every concept and instance', 'raises %s(%s)' % (
            v.cls.name, desc(v.fields.get('args', ()))), {'scenario': label, 'choices': trace_of(r)})
    explore_into(ctx, prog, run, label, ok, bad)


HIST = ('increment', 'add counts', 'new child', 'merge', 'split', 'scale')


def hist_scen(ctx, prog, kind, cfg, hist):
    """Scores asked for again after the concept has changed."""
    label = 'scores before and after %s of a %s concept (%s)' % (hist, kind, cfg['name'])
    c = {k: v for k, v in cfg.items() if k != 'name'}

    def run(I):
        c2 = dict(c, tree_kw=conv(c.get('tree_kw')))
        F = Flat(I, kind, **c2)
        T, S, n = F.tree, F.stat, F.n
        kids = list(F.kids)
        il = INSTS[kind]
        atom = lambda d, p: {a: (N.atom('%s.%s' % (p, a)) if v == 'num' else v) for a, v in d.items()}
        d = atom(il[0], 'i')
        ist = instance_stat(I, d, kind != 'cobweb')
        meth = lambda o, m, *a: I.call(I.getattr_(o, m), list(a), {})

        def ask(S, kids):
            out = [(meth(n, 'expected_correct_guesses'), ecg(I, T, S)),
                   (meth(n, 'category_utility'), cu(I, T, S, [(st, m) for _, st, m in kids]))]
            for k, st, m in kids + F.gkids:
                if m is None:
                    out.append((meth(k, 'expected_correct_guesses'), ecg(I, T, st)))
            S1 = stat_comb(I, S, ist)
            out.append((meth(n, 'cu_for_new_child', mkdict(I, d)), cu(I, T, S1, [(st, m) for _, st, m in kids] + [(ist, None)])))
            k2 = [(st, m) for _, st, m in kids]
            k2[0] = (stat_comb(I, k2[0][0], ist), None)
            out.append((meth(n, 'cu_for_insert', kids[0][0], mkdict(I, d)), cu(I, T, S1, k2)))
            r = I.num(meth(n, 'relative_cu_for_insert', kids[0][0], mkdict(I, d)))
            const = I.num(meth(n, 'compute_relative_CU_const', mkdict(I, d)))
            cnt = N.const(0)
            for _, m in k2:
                cnt = N.add(cnt, N.const(1) if m is None else m)
            out.append((N.add(N.div(N.div(r, N.add(I.num(S.count), N.const(1))), cnt), const), cu(I, T, S1, k2)))
            return out
        out = ask(S, kids)
        if hist == 'increment':
            e = atom(il[1], 'j')
            est = instance_stat(I, e, kind != 'cobweb')
            meth(n, 'increment_counts', mkdict(I, e))
            meth(kids[0][0], 'increment_counts', mkdict(I, e))
            S = stat_comb(I, S, est)
            kids[0] = (kids[0][0], stat_comb(I, kids[0][1], est), None)
            if F.gkids:
                raise Prune()
        elif hist == 'add counts':
            if F.gkids:
                raise Prune()
            est = rstat(I, 'o', c['specs'][1], 'big')
            o = F.node('o', est)
            meth(n, 'update_counts_from_node', o)
            meth(kids[0][0], 'update_counts_from_node', o)
            S = stat_comb(I, S, est)
            kids[0] = (kids[0][0], stat_comb(I, kids[0][1], est), None)
        elif hist == 'new child':
            e = atom(il[1], 'j')
            est = instance_stat(I, e, kind != 'cobweb')
            meth(n, 'increment_counts', mkdict(I, e))
            k = meth(n, 'create_new_child', mkdict(I, e))
            S = stat_comb(I, S, est)
            kids.append((k, est, None))
        elif hist == 'merge':
            if len(kids) < 3:
                raise Prune()
            a, b = kids[:2]
            k = meth(n, 'merge', a[0], b[0])
            kids = [(k, stat_comb(I, a[1], b[1]), None)] + kids[2:]
        elif hist == 'split':
            if not F.gkids:
                raise Prune()
            meth(n, 'split', kids[0][0])
            kids = F.gkids + kids[1:]
        else:
            if not c.get('scales'):
                raise Prune()
            I.scale_ref = {}
            for a, reg in c['scales'].items():
                if reg == 'one':
                    raise Prune()
                cv = I.dget(tree_scales(I, T), a, None, None)
                x = N.atom('t.%s' % a)
                meth(cv, 'update', x)
                mq = cv.fields.get('meanSq')
                if isinstance(mq, N.Num):
                    mq.lo = max(mq.lo, 1.0)         # it only grows (C13)
                _, m, s, q = cv.meta
                I.scale_ref[a] = (N.add(I.num(m), N.const(1)), N.add(I.num(s), x), N.add(I.num(q), N.mul(x, x)))
        return out + ask(S, kids)

    def ok(I, v, r):
        for got, want in v:
            s = same(I, got, want)
            if s is True:
                ctx.ok()
            elif s is None:
                ctx.undec(label + ': equal only under path conditions')
            else:
                ctx.fail(label, 'scores are those of the concept as it is now', 'the abstract value %r is not that of the category '
                         'utility of the partition (%r)' % (got, want), {'scenario': label, 'choices': trace_of(r)})

    def bad(I, v, r):
        ctx.fail(v.fields.get('__where__', '?'), 'scores exist for every concept and instance', 'raises %s(%s)' % (
            v.cls.name, desc(v.fields.get('args', ()))), {'scenario': label, 'choices': trace_of(r)})
    explore_into(ctx, prog, run, label, ok, bad)


def check(ctx, prog):
    from ..par import run_tasks
    ctx.rule('value number of each score function over generic count tables = value number of the documented '
             'category-utility formula for the partition the operation produces')
    T = []
    for kind in KINDS:
        for cfg in CONFIGS[kind]:
            for op in OPS:
                T.append(('%s %s %s' % (kind, cfg['name'], op),
                          lambda c, kind=kind, cfg=cfg, op=op: scen(c, prog, kind, cfg, op)))
            for h in HIST:
                T.append(('%s %s after %s' % (kind, cfg['name'], h),
                          lambda c, kind=kind, cfg=cfg, h=h: hist_scen(c, prog, kind, cfg, h)))
    run_tasks(ctx, T)
