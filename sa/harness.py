"""Generic abstract inputs: trees, nodes, count tables, instances."""
from fractions import Fraction
from . import num as N
from .num import Num, INF
from .values import *
from .interp import Interp, explore, refine
import ast

CV = '#ContinuousValue#'
PK = 'concept_formation.'

TREES = {
    'cobweb': (PK + 'cobweb', 'CobwebTree'),
    'cobweb3': (PK + 'cobweb3', 'Cobweb3Tree'),
    'trestle': (PK + 'trestle', 'TrestleTree'),
    'dummy': (PK + 'dummy', 'DummyTree'),
}


def mkdict(I, d):
    o = PyDict(I)
    for k, v in d.items():
        I.dset(o, k, mk(I, v), raw=True)
    return o


def mk(I, v):
    if isinstance(v, dict):
        return mkdict(I, v)
    if isinstance(v, list):
        return PyList(I, [mk(I, x) for x in v])
    if isinstance(v, set):
        s = PySet(I)
        for x in v:
            s.d[I.hkey(x)] = x
        return s
    return v


def new_tree(I, kind, **kw):
    mod, name = TREES[kind]
    t = I.call(I.get(mod, name), [], kw)
    t.tag = 'tree'
    return t


def plus(I, a, b):
    return I.binop(ast.Add, a, b)


def minus(I, a, b):
    return I.binop(ast.Sub, a, b)


def times(I, a, b):
    return I.norm(N.mul(I.num(a), I.num(b)))


def named(I, name, value, lo, hi=INF, t='float'):
    """An atom with its own bounds whose value number is that of `value`."""
    return N.atom(name, lo, hi, t, v=I.num(value).v)


NODE_FIELDS = ('concept_id', 'count', 'av_counts', 'children', 'parent', 'tree')
CV_FIELDS = ('num', 'mean', 'meanSq')


def known_layout(o, fields):
    """The generic states below are described through the documented fields.
    Further fields are fine while they start out empty (caches); a different
    representation is outside what is analysed."""
    for f in fields:
        if f not in o.fields:
            raise Unsupported('%s objects have no field %s' % (o.cls.name, f))
    for f, v in o.fields.items():
        if f in fields or f.startswith('__'):
            continue
        if v is None or v is False or isinstance(v, (PyDict, PySet)) and not v.d or (
                isinstance(v, PyList) and not v._items and not v.pending):
            continue
        raise Unsupported('%s objects carry further state: %s' % (o.cls.name, f))


# ------------------------------------------------------------------- tables
# spec of a table: {attr: {value: kind}} ; kind 'n' nominal, CV numeric.
def cv_object(I, s0, s1, s2, name):
    """A ContinuousValue whose sufficient statistics are (n, sum, sumsq)."""
    C = I.get(PK + 'continuous_value', 'ContinuousValue')
    o = I.call(C, [], {})
    known_layout(o, CV_FIELDS)
    n, m = s0, N.div(I.num(s1), I.num(s0))
    ms = N.add(I.num(s2), N.div(N.mul(I.num(s1), I.num(s1)), I.num(s0)), -1)
    o.fields['num'] = n
    o.fields['mean'] = m
    o.fields['meanSq'] = N.Num(ms.v, {name + '.mq': Fraction(1)}, Fraction(0), 0.0, INF)
    N.B[name + '.mq'] = (0.0, INF)
    o.meta = ('cv', s0, s1, s2)
    o.tag = name
    return o


def cv_stats(I, o):
    """Sufficient statistics of a ContinuousValue, as value numbers."""
    n = I.num(I.getattr_(o, 'num'))
    m = I.num(I.getattr_(o, 'mean'))
    q = I.num(I.getattr_(o, 'meanSq'))
    s1 = N.mul(n, m)
    return n, s1, N.add(q, N.mul(s1, m))


class Stat(object):
    """An abstract count table: count and, per (attr, value), a number or a
    triple of sufficient statistics."""

    def __init__(self):
        self.count = None
        self.t = {}

    def key(self):
        return (vk(self.count), tuple(sorted(((k, tuple(vk(x) for x in v)) for k, v in self.t.items()
                                              if any(vk(x) != '0' for x in v)), key=str)))


def vk(x):
    if isinstance(x, Num):
        return x.key()
    return N.vkey(N.Decimal(x))


def count_facts(I, st):
    """What holds of every count table: counts are whole numbers, and the values
    of an attribute are seen in at most all of the concept's instances."""
    if not isinstance(st.count, Num):
        return
    tot = {}
    for (a, v), x in st.t.items():
        if isinstance(x[0], Num):
            N.WHOLE.update(n for n in x[0].lin if n[0] != '#')
            d = N.add(st.count, x[0], -1)
            if not d.const:
                I.facts[frozenset(d.lin.items())] = d.c
            tot.setdefault(a, []).append(x[0])
    N.WHOLE.update(n for n in st.count.lin if n[0] != '#')
    for a, l in tot.items():
        if len(l) > 1:
            d = st.count
            for x in l:
                d = N.add(d, x, -1)
            if not d.const:
                I.facts[frozenset(d.lin.items())] = d.c


def fresh_stat(I, name, spec, cvlo=1):
    s = Stat()
    s.count = N.atom(name + '.n', 1)
    for a, vals in spec.items():
        for v, kind in vals.items():
            if kind == CV:
                s.t[a, v] = (N.atom('%s.%s.n' % (name, a), cvlo), N.atom('%s.%s.s' % (name, a)),
                             N.atom('%s.%s.q' % (name, a), 200))
            else:
                s.t[a, v] = (N.atom('%s.%s.%s' % (name, a, v), 1),)
    return s


def stat_comb(I, a, b, sign=1, m=None):
    r = Stat()
    f = (lambda x: x) if m is None else (lambda x: N.mul(m, I.num(x)))
    r.count = N.add(I.num(a.count), f(I.num(b.count)), sign)
    for k in set(a.t) | set(b.t):
        x, y = a.t.get(k), b.t.get(k)
        if x is None:
            x = tuple(N.const(0) for _ in y)
        if y is None:
            y = tuple(N.const(0) for _ in x)
        r.t[k] = tuple(N.add(I.num(p), f(I.num(q)), sign) for p, q in zip(x, y))
    return r


def renamed(I, s, name, cvlo=1):
    """Give every entry its own positively bounded atom (same value number)."""
    r = Stat()
    r.count = named(I, name + '.n', s.count, 1)
    for k, v in s.t.items():
        nm = '%s.%s.%s' % (name, k[0], k[1])
        if len(v) == 1:
            r.t[k] = (named(I, nm, v[0], 1),)
        else:
            r.t[k] = (named(I, nm + 'n', v[0], cvlo), named(I, nm + 's', v[1], -INF), named(I, nm + 'q', v[2], 0))
    return r


def stat_of(I, node):
    """Read the current table of a concrete-shape node as a Stat."""
    s = Stat()
    s.count = I.num(I.getattr_(node, 'count'))
    av = I.getattr_(node, 'av_counts')
    for a, _ in list(av.d.values()):
        vals = I.dget(av, a)
        if not isinstance(vals, PyDict):
            raise Malformed('table entry of %r is not a dictionary' % (a,))
        for v, _ in list(vals.d.values()):
            x = I.dget(vals, v)
            if isinstance(x, PyObj):
                s.t[a, v] = cv_stats(I, x)
            elif I.is_num(x) and not isinstance(x, (Inf, NaN)):
                s.t[a, tkey(v)] = (I.num(x),)
            else:
                raise Malformed('table value of (%r, %r) is %r' % (a, v, x))
    return s


def tkey(v):
    return ('num', v.key()) if isinstance(v, Num) else v


class Malformed(Exception):
    pass


def instance_stat(I, inst, numeric):
    s = Stat()
    s.count = N.const(1)
    for a, v in inst.items():
        if numeric and (isinstance(v, Num) or (isinstance(v, int) and not isinstance(v, bool))):
            x = I.num(v)
            s.t[a, CV] = (N.const(1), x, N.mul(x, x))
        else:
            s.t[a, tkey(v)] = (N.const(1),)
    return s


# ------------------------------------------------------------------- nodes
class GTree(object):
    """A generic tree: every node lazily is a leaf or has at least two
    children (two generic ones and a summary of arbitrarily many more)."""

    def __init__(self, I, kind, spec, depth=2, root_leaf=None, rest=True, fixed_tree=None, shape=None, prefix='',
                 tree_kw=None, budget=3, cvlo=1):
        self.I = I
        self.cvlo = cvlo
        self.kind = kind
        self.spec = spec
        self.depth = depth
        self.rest = rest
        self.prefix = prefix
        self.nodes = []
        self.shape = shape
        self.budget = budget
        self.tree = fixed_tree or new_tree(I, kind, **(tree_kw or {}))
        self.node_cls = I.getattr_(I.getattr_(self.tree, 'root'), '__class__')
        self.init = {}
        self.kidsnap = {}
        self.state0 = {}
        self.nid = 5000
        I.region = 'init'
        self.root = self.make(prefix + 'r', fresh_stat(I, prefix + 'r', spec, cvlo), None, 0, shape)
        I.setattr_(self.tree, 'root', self.root)
        I.region = 'run'
        self.tree.region = 'init'

    def make(self, name, stat, parent, level, shape=None, summ=None):
        I = self.I
        reg, I.region = I.region, 'init'
        tr, I.track = I.track, False
        mu, I.mults = I.mults, []
        n = I.call(self.node_cls, [], {})
        known_layout(n, NODE_FIELDS)
        # a generic concept number, disjoint from those handed out later
        self.nid += 1
        n.fields['concept_id'] = self.nid
        n.tag = name
        n.summ = summ
        n.fields['count'] = stat.count
        av = PyDict(I)
        av.tag = name + '.av'
        av.summ = summ
        self.fill(av, stat, name, summ)
        n.fields['av_counts'] = av
        n.fields['parent'] = parent
        n.fields['tree'] = self.tree
        n.fields['children'] = Lazy(lambda I: self.children(n, stat, name, level, shape, summ))
        n.meta = ('gen', name, level)
        self.nodes.append(n)
        self.init[n.oid] = stat
        self.state0[n.oid] = node_state(I, n)
        for o in (n, av):
            o.region = 'init'
        I.region = reg
        I.track = tr
        I.mults = mu
        return n

    def fill(self, av, stat, name, summ):
        I = self.I
        count_facts(I, stat)
        for (a, v), x in stat.t.items():
            vals = I.dget(av, a, None, None)
            if vals is None:
                vals = PyDict(I)
                vals.tag = '%s.av.%s' % (name, a)
                vals.summ = summ
                I.dset(av, a, vals, raw=True)
            if len(x) == 3:
                o = cv_object(I, x[0], x[1], x[2], '%s.%s.cv' % (name, a))
                o.summ = summ
                I.dset(vals, v, o, raw=True)
            else:
                I.dset(vals, v, x[0], raw=True)

    def children(self, n, stat, name, level, shape, summ):
        I = self.I
        reg, I.region = I.region, 'init'
        mu, I.mults = I.mults, []
        lst = PyList(I, [])
        lst.tag = name + '.ch'
        lst.summ = summ
        leaf = level >= self.depth or self.budget <= 0
        if shape is not None:
            leaf = not shape
        elif not leaf:
            leaf = I.choose(2, 'leaf?') == 1
        if not leaf:
            self.budget -= 1
            sh = shape if isinstance(shape, (list, tuple)) else (None, None)
            cs = []
            rest = stat
            k = len(sh)
            m = None
            if self.rest:
                m = N.atom(name + '.m', 0, INF, 'int')
                rs = fresh_stat(I, name + 'R', self.spec_of(stat), self.cvlo)
                rest = stat_comb(I, rest, rs, -1, m)
            for i in range(k):
                nm = name + str(i + 1)
                if i < k - 1:
                    st = fresh_stat(I, nm, self.spec_of(stat), self.cvlo)
                    rest = stat_comb(I, rest, st, -1)
                else:
                    st = renamed(I, rest, nm, self.cvlo)
                cs.append(self.make(nm, st, n, level + 1, sh[i], summ))
            if self.rest:
                r = self.make(name + 'R', rs, n, level + 1, None, m if summ is None else N.mul(summ, m))
                lst._items = [cs[0], Summ(m, r)] + cs[1:]
                lst._items = cs + [Summ(m, r)]
            else:
                lst._items = cs
        lst.region = 'init'
        self.kidsnap[n.oid] = kid_ids(lst._items)
        I.region = reg
        I.mults = mu
        return lst

    def spec_of(self, stat):
        sp = {}
        for (a, v), x in stat.t.items():
            sp.setdefault(a, {})[v] = CV if len(x) == 3 else 'n'
        return sp

    def materialised(self, n):
        return not isinstance(n.fields.get('children'), Lazy)


def quick_scores(I):
    """Score functions are opaque in shape scenarios (any value possible)."""
    def score(I, f, args, kw, node):
        return I.fresh('score')
    for q in ('cobweb.CobwebNode', 'cobweb3.Cobweb3Node'):
        I.intercepts[PK + q + '.expected_correct_guesses'] = score


WHATIF = ('relative_cu_for_insert', 'compute_relative_CU_const', 'cu_for_insert', 'cu_for_new_child', 'cu_for_merge',
          'cu_for_split', 'cu_for_fringe_split', 'category_utility')


def opaque_whatif(I):
    """Also make the what-if evaluations opaque (they are analysed on their
    own: C01 for their effects, C05 for their values)."""
    def score(I, f, args, kw, node):
        return I.fresh('score')
    for q in ('cobweb.CobwebNode', 'cobweb3.Cobweb3Node'):
        for m in WHATIF:
            I.intercepts[PK + q + '.' + m] = score


def explore_into(ctx, prog, run, label, on_ok, on_raise=None, max_paths=20000, prune_ok=True, deadline=None):
    """Explore run(I); account for every path in ctx."""
    v0 = len(ctx.violations)
    for r in explore(prog, run, max_paths, deadline, lambda: len(ctx.violations) - v0 >= 6):
        ctx.paths += 1
        ctx.absorb(r.I)
        k, v = r.out
        if k == 'pruned':
            ctx.pruned += 1
            continue
        if k == 'undecided':
            ctx.undec('%s: %s' % (label, v))
            continue
        if r.I.imprecise:
            ctx.undec('%s: %s' % (label, r.I.imprecise[0]))
            continue
        if k == 'raise':
            if on_raise is None:
                w = v.fields.get('__where__', '?')
                ctx.fail(w, label, 'raises %s(%s)' % (v.cls.name, desc(v.fields.get('args', ()))),
                         {'choices': [c[2] + '=' + str(c[0]) for c in r.trace]})
            else:
                on_raise(r.I, v, r)
            continue
        save = ctx.mark() if r.I.eqs else None
        judge(ctx, r, v, on_ok, label)
        if r.I.want and save is not None:
            r2 = refine(prog, run, r)
            if r2 is not None and r2.out[0] == 'ok' and not r2.I.imprecise:
                ctx.reset(save)
                ctx.count('paths re-interpreted where their equalities hold')
                N.OV.update(r2.ov)
                judge(ctx, r2, r2.out[1], on_ok, label)
                N.OV.clear()


def judge(ctx, r, v, on_ok, label):
    try:
        on_ok(r.I, v, r)
    except (Unsupported, Prune) as e:
        ctx.undec('%s: %s' % (label, e))
    except PyRaise as e:
        ctx.undec('%s: inspecting the result raises %s' % (label, e.exc.cls.name))


def desc(args):
    if not args:
        return ''
    return repr(args[0])[:120]


def trace_of(r):
    return ['%s=%d/%d' % (l, c, n) for c, n, l in r.trace]


def same(I, a, b):
    """True / False / None: do two abstract numbers denote the same value?
    None when they differ generically but the path assumes an equality under
    which they might agree."""
    if isinstance(a, (Inf, NaN)) or isinstance(b, (Inf, NaN)) or not I.is_num(a) or not I.is_num(b):
        return type(a) is type(b) and not isinstance(a, Num)
    a, b = I.num(a), I.num(b)
    if a.key() == b.key():
        return True
    d = N.add(a, b, -1)
    if d.const and d.c == 0 or abs(d.v) < N.Decimal('1e-35'):
        return True
    try:
        rel = I.cmp_rel(a, b)
    except Prune:
        I.want = True
        return None
    if '=' not in rel:
        return False
    if rel == frozenset('='):
        return True
    if I.eqs and not I.exact:
        I.want = True
        return None
    return False


def same_stat(I, a, b):
    r = [same(I, a.count, b.count)]
    for k in set(a.t) | set(b.t):
        x, y = a.t.get(k), b.t.get(k)
        if x is None or y is None:
            z = x or y
            r += [same(I, v, 0) for v in z]
        elif len(x) != len(y):
            return False
        else:
            r += [same(I, p, q) for p, q in zip(x, y)]
    if False in r:
        return False
    return None if None in r else True


def deep(I, v, d=0):
    """Canonical deep value (dictionaries unordered, lists ordered)."""
    if d > 12:
        return '...'
    if isinstance(v, Num) or (isinstance(v, int) and not isinstance(v, bool)):
        return ('n', vk(v))
    if isinstance(v, PyList):
        I.full(v)
        return ('l',) + tuple(deep(I, x.v if isinstance(x, Summ) else x, d + 1) for x in v._items)
    if isinstance(v, tuple):
        return ('t',) + tuple(deep(I, x, d + 1) for x in v)
    if isinstance(v, PyDict):
        return ('d', frozenset((deep(I, k, d + 1), deep(I, I.dget(v, k), d + 1)) for k, _ in list(v.d.values())))
    if isinstance(v, PySet):
        return ('s', frozenset(deep(I, x, d + 1) for x in v.d.values()))
    if isinstance(v, PyObj):
        if 'meanSq' in v.fields and 'num' in v.fields:
            return ('cv',) + tuple(deep(I, v.fields[f], d + 1) for f in ('num', 'mean', 'meanSq'))
        return ('o', v.oid)
    if isinstance(v, (str, SStr, bool, type(None))):
        return ('c', type(v).__name__, v)
    if isinstance(v, (NaN, Inf)):
        return ('x', repr(v))
    if isinstance(v, IterV):
        return ('it', len(v.pairs)) + tuple(deep(I, x, d + 1) for x, _ in v.pairs[:20])
    if isinstance(v, RangeV):
        return ('r', deep(I, v.a, d + 1), deep(I, v.b, d + 1), deep(I, v.c, d + 1))
    if isinstance(v, Func):
        return ('f', v.module.name, v.qual, getattr(v.node, 'lineno', 0))
    if isinstance(v, Bound) and isinstance(v.fn, Func):
        return ('b', deep(I, v.fn, d + 1))
    return ('id', id(v))


def burn_names(I, tree, k):
    """Hand out the first k object names of a new tree."""
    if 'gensym_counter' in tree.fields:
        tree.fields['gensym_counter'] = k
        return
    try:
        for _ in range(k):
            I.call(I.getattr_(tree, 'gensym'), [], {})
    except PyRaise:
        raise Unsupported('object names are handed out in another way')


def kid_ids(items):
    return tuple((id(x.v), vk(x.m)) if isinstance(x, Summ) else id(x) for x in items)


def node_state(I, n):
    """Everything observable about one concept except its children."""
    f = n.fields
    return {'count': deep(I, f.get('count')), 'counts table': deep(I, f.get('av_counts')),
            'parent': deep(I, f.get('parent')), 'tree': deep(I, f.get('tree')), 'id': deep(I, f.get('concept_id'))}


def tree_state(I, t):
    f = t.fields
    own = class_data(t)
    return {k: deep(I, own[k] if k in own else f.get(k)) for k in ('root', 'scaling', 'inner_attr_scaling', 'attr_scales')
            if k in f or k in own}


def changed(I, g, t0):
    """What differs from the recorded state of tree and concepts."""
    out = []
    t1 = tree_state(I, g.tree)
    for k in t0:
        if t1.get(k) != t0[k]:
            out.append('the tree\'s %s' % k)
    for n in g.nodes:
        s0, s1 = g.state0.get(n.oid), node_state(I, n)
        for k in s0:
            if s0[k] != s1[k]:
                out.append('%s of concept %s' % (k, n.tag))
        ch = n.fields.get('children')
        if isinstance(ch, Lazy):
            continue
        if not isinstance(ch, PyList):
            out.append('children of concept %s' % n.tag)
            continue
        I.full(ch)
        if n.oid in g.kidsnap and kid_ids(ch._items) != g.kidsnap[n.oid]:
            out.append('children of concept %s' % n.tag)
    return out


def tree_scales(I, tree, need=True):
    """The attribute scales of a tree, wherever they are kept."""
    try:
        sc = I.getattr_(tree, 'attr_scales')
    except PyRaise:
        sc = None
    if not isinstance(sc, PyDict) and (need or sc is not None):
        raise Unsupported('attribute scales have another form')
    return sc


def class_data(o):
    """Mutable data an object has from its class: {name: value}."""
    out = {}
    if isinstance(o, PyObj) and isinstance(o.cls, Class):
        for c in o.cls.mro:
            if isinstance(c, Class):
                for k, x in c.ns.items():
                    if k not in out and k not in o.fields and isinstance(x, (PyDict, PyList, PyObj)):
                        out[k] = x
    return out
