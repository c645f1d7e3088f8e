"""Disjunctive (trace-partitioned) abstract interpreter for Python source.

The analysed source is parsed, never imported.  Abstract states are explored
exhaustively: every undecided test forks the abstract state.  Collections may
hold summary elements standing for arbitrarily many like elements; a loop over
a summary element is evaluated once and its additive effects are multiplied by
the element's symbolic multiplicity.
"""
import _thread
import ast
import builtins
import collections
import decimal
import heapq
import types
import threading
import time
import fractions
import numbers
from decimal import Decimal
from fractions import Fraction

from . import num as N
from .num import Num, INF
from .values import *
from .frontend import where

MAX_STEPS = 300000
MAX_DEPTH = 120


ABSENT = object()


class Hang(BaseException):
    """Stands for a loop that never ends."""



class ReturnSig(Exception):
    def __init__(self, v):
        self.v = v


class BreakSig(Exception):
    pass


class ContinueSig(Exception):
    pass


class Env(object):
    __slots__ = ('vars', 'parent', 'glob', 'nonlocals', 'globals_', 'yields', 'fn', 'selfcls')

    def __init__(self, parent, glob, fn=None):
        self.vars = {}
        self.parent = parent
        self.glob = glob
        self.nonlocals = None
        self.globals_ = None
        self.yields = None
        self.fn = fn
        self.selfcls = None


_gen_cache = {}


def is_generator(node):
    r = _gen_cache.get(node)
    if r is None:
        r = False
        stack = list(node.body) if isinstance(node.body, list) else [node.body]
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(n))
        _gen_cache[node] = r
    return r


def defined(st):
    """The names a module-level statement binds, if it does only that."""
    if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
        return [st.name]
    if isinstance(st, (ast.Assign, ast.AnnAssign)):
        ts = st.targets if isinstance(st, ast.Assign) else [st.target]
        out = []
        for t in ts:
            for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                if not isinstance(x, ast.Name):
                    return []
                out.append(x.id)
        return out
    return []


def vkey_eq(I, a, b):
    return I.num(a).key() == I.num(b).key()


class Interp(object):
    def __init__(self, prog, prefix=()):
        self.prog = prog
        self.prefix = list(prefix)
        self.trace = []          # (choice, arity, label)
        self.heap = []
        self.region = 'global'
        self.mults = []
        self.modules = {}
        self.memo = {}
        self.memos = {}
        self.rel = {}
        self.facts = {}           # linear forms known to be >= 0: {terms: constant}
        self.steps = 0
        self.depth = 0
        self.stack = []
        self.frames = []
        self.gens = []
        self.nwrote = 0
        self.writes = []
        self.track = False
        self.events = []
        self.files = {}
        self.observers = {}
        self.intercepts = {}
        self.summ_keys = {}
        self.rnd = 0
        self.fresh_n = 0
        self.imprecise = []
        self.functions = set()
        self.callsites = set()
        self.excinfo = []
        self.output = []
        self.sorts = []
        self.fork_on_zero = False
        self.eqs = 0
        self.eqlist = []
        self.keyidx = {}
        self.exact = False
        self.want = False
        N.B.clear()
        N.QUOT.clear()
        N.PROD.clear()
        N.POINT.clear()
        from . import builtins_ as bi
        self.bi = bi
        self.builtins = bi.make_builtins(self)

    # ------------------------------------------------------------- choices
    def choose(self, n, label=''):
        if n <= 1:
            return 0
        i = len(self.trace)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.trace.append((c, n, label))
        if len(self.trace) > 400:
            raise Unsupported('too many forks on one path')
        return c

    def cur_mult(self):
        if not self.mults:
            return None
        m = self.mults[0]
        for x in self.mults[1:]:
            m = N.mul(m, x)
        return m

    def fresh(self, name, lo=-INF, hi=INF, t='float'):
        self.fresh_n += 1
        return N.atom('%s@%d' % (name, self.fresh_n), lo, hi, t)

    def note(self, why):
        if why not in self.imprecise:
            self.imprecise.append(why)

    # ------------------------------------------------------------- modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        src = self.prog.find(name)
        if src is None:
            return None
        env = {'__name__': name, '__file__': '/PKG/' + name.replace('.', '/') + '.py', '__doc__': None}
        m = ModuleV(name, env)
        self.modules[name] = m
        reg, self.region = self.region, 'global'
        saved, self.mults = self.mults, []
        e = Env(None, m)
        e.vars = env
        try:
            for st in src.tree.body:
                try:
                    self.exec_block([st], e)
                except Unsupported as u:
                    # what it defines is unknown: using it is unsupported
                    names = defined(st)
                    if not names:
                        raise
                    for nm in names:
                        env[nm] = Poison(str(u))
        finally:
            self.region = reg
            self.mults = saved
        return m

    def get(self, module, name):
        m = self.module(module)
        if m is None or name not in m.env:
            raise Unsupported('no %s in %s' % (name, module))
        if m.env[name].__class__ is Poison:
            raise Unsupported(m.env[name].why)
        return m.env[name]

    # ---------------------------------------------------------- exceptions
    def exc(self, pycls, msg='', node=None):
        o = PyObj(self, BClass(pycls))
        o.fields['args'] = (msg,) if msg != '' else ()
        o.fields['__where__'] = where(node) if node is not None else (self.stack[-1] if self.stack else '?')
        return PyRaise(o)

    # ------------------------------------------------------------- numbers
    def num(self, x):
        if isinstance(x, Num):
            return x
        if isinstance(x, bool):
            return N.const(int(x))
        if isinstance(x, int):
            return N.const(x)
        raise Unsupported('not a number: %r' % (x,))

    def is_num(self, x):
        return isinstance(x, (Num, int, Inf, NaN)) and not isinstance(x, str)

    def norm(self, x):
        """int-typed constants become python ints again."""
        if isinstance(x, Num) and x.const and x.t == 'int' and x.c.denominator == 1:
            return int(x.c)
        return x

    def cmp_rel(self, a, b):
        """The set of relations possible between numbers a and b."""
        if isinstance(a, NaN) or isinstance(b, NaN):
            return frozenset('n')
        if isinstance(a, Inf) or isinstance(b, Inf):
            av = a.s if isinstance(a, Inf) else 0
            bv = b.s if isinstance(b, Inf) else 0
            return frozenset('<' if av < bv else '>' if av > bv else '=')
        if isinstance(a, int) and isinstance(b, int):
            return frozenset('<' if a < b else '>' if a > b else '=')
        d = N.add(self.num(a), self.num(b), -1)
        if d.const:
            return frozenset('<' if d.c < 0 else '>' if d.c > 0 else '=')
        key, s = N.vkey(abs(d.v)), (1 if d.v > 0 else -1)
        rel = self.rel.get(key, frozenset('<=>'))
        if s < 0:
            rel = frozenset({'<': '>', '>': '<', '=': '='}[r] for r in rel)
        lo, hi = N.lin_bounds(d.lin, d.c)
        lo, hi = max(lo, d.lo), min(hi, d.hi)
        out = set(rel)
        if lo > 0:
            out &= {'>'}
        elif lo >= 0:
            out -= {'<'}
        if hi < 0:
            out &= {'<'}
        elif hi <= 0:
            out -= {'>'}
        if len(out) > 1 and self.facts and len(d.lin) < 40:
            # (d = f + e for a known f >= 0, or d = e - f)
            c = self.facts.get(frozenset(d.lin.items()))
            if c is not None and d.c >= c:
                out -= {'<', '='} if d.c > c else {'<'}
            c = self.facts.get(frozenset((x, -k) for x, k in d.lin.items()))
            if c is not None and -d.c >= c:
                out -= {'>', '='} if -d.c > c else {'>'}
        if len(out) > 1:
            e = N.cleared(d)
            if e is not None and not (e.lin == d.lin):
                out &= self.cmp_rel(e, 0)
        if len(out) > 1 and len(d.lin) == 1 and d.c == 0:
            (nm, k), = d.lin.items()
            p = N.PROD.get(nm)
            if p is not None and all(nm not in x.lin for x in p):
                x, y = (self.cmp_rel(f, 0) for f in p)
                s = {'<': -1, '=': 0, '>': 1}
                pos = {'<=>'[1 + s[i] * s[j]] for i in x for j in y}
                out &= pos if k > 0 else {'<=>'[1 - s[i]] for i in pos}
        if not out:
            raise Prune()
        return frozenset(out)

    def learn(self, a, b, rels):
        d = N.add(self.num(a), self.num(b), -1)
        if d.const:
            return
        key, s = N.vkey(abs(d.v)), (1 if d.v > 0 else -1)
        r2 = rels if s > 0 else frozenset({'<': '>', '>': '<', '=': '='}[r] for r in rels)
        self.rel[key] = self.rel.get(key, frozenset('<=>')) & r2
        self.keyidx.setdefault(key, []).append(len(self.trace) - 1)
        if self.rel[key] == frozenset('='):
            self.eqs += 1
            self.eqlist.append((key, d))
        if len(d.lin) == 1:
            (nm, k), = d.lin.items()
            lo, hi = N.B.get(nm, (-INF, INF))
            z = float(-d.c / k)
            pos = k > 0
            integer = self.num(a).t == 'int' and self.num(b).t == 'int' and abs(k) == 1
            step = 1.0 if integer and z == int(z) else 0.0
            if rels == frozenset('='):
                lo, hi = max(lo, z), min(hi, z)
            else:
                if '>' not in rels:
                    zz = z if '=' in rels else (z - step if pos else z + step)
                    if pos:
                        hi = min(hi, zz)
                    else:
                        lo = max(lo, zz)
                if '<' not in rels:
                    zz = z if '=' in rels else (z + step if pos else z - step)
                    if pos:
                        lo = max(lo, zz)
                    else:
                        hi = min(hi, zz)
            if lo > hi:
                raise Prune()
            N.B[nm] = (lo, hi)

    def decide(self, a, b, yes, label):
        """Decide whether rel(a,b) is in `yes`, forking when open."""
        rel = self.cmp_rel(a, b)
        if rel == frozenset('n'):
            return False
        y, n = rel & yes, rel - yes
        if not n:
            return True
        if not y:
            return False
        if self.choose(2, label) == 0:
            self.learn(a, b, y)
            return True
        self.learn(a, b, n)
        return False

    def lt(self, a, b):
        return self.decide(a, b, frozenset('<'), 'lt')

    def mult_zero(self, m):
        return m is not None and m.hi == 0 or (
            m is not None and N.lin_bounds(m.lin, m.c)[1] <= 0)

    # ----------------------------------------------------------- hash keys
    def hkey(self, v, node=None):
        if v is None:
            return ('none',)
        if isinstance(v, bool):
            return ('n', N.vkey(Decimal(int(v))))
        if isinstance(v, int):
            return ('n', N.vkey(Decimal(v)))
        if isinstance(v, Num):
            return ('n', v.key())
        if isinstance(v, str):
            return ('s', v)
        if isinstance(v, SStr):
            return ('ss',) + v.parts
        if isinstance(v, tuple):
            return ('t',) + tuple(self.hkey(x, node) for x in v)
        if isinstance(v, PySet):
            if v.frozen:
                return ('fs', frozenset(v.d))
            raise self.exc(TypeError, "unhashable type: 'set'", node)
        if isinstance(v, PyList):
            raise self.exc(TypeError, "unhashable type: 'list'", node)
        if isinstance(v, PyDict):
            raise self.exc(TypeError, "unhashable type: 'dict'", node)
        if isinstance(v, PyObj):
            if isinstance(v.cls, Class):
                h = self.find_attr(v.cls, '__hash__')
                e = self.find_attr(v.cls, '__eq__')
                if e is not None and h is None:
                    raise self.exc(TypeError, 'unhashable type', node)
                if e is not None:
                    return ('oh', self.hkey(self.call(Bound(v, h), [], {}, node)))
                if h is not None and isinstance(h, Func):
                    # user hash with identity equality; run it for exceptions
                    pass
                if h is None and '__hash__' in v.fields:
                    raise self.exc(TypeError, 'unhashable type', node)
            return ('o', v.oid)
        if isinstance(v, Opaque):
            if v.kind == 'unhashable':
                raise self.exc(TypeError, 'unhashable type', node)
            return ('op', v.name)
        if isinstance(v, IdxSumm):
            return ('ix', id(v))
        return ('id', id(v))

    def key_mult(self, key):
        """Multiplicity of a dict key / set element if it is a summary."""
        if not self.summ_keys:
            return None
        if isinstance(key, str):
            return self.summ_keys.get(key)
        if isinstance(key, Num):
            return self.summ_keys.get(key.key())
        if isinstance(key, tuple):
            for x in key:
                m = self.key_mult(x)
                if m is not None:
                    return m
        if isinstance(key, PyObj):
            return key.summ
        return None

    # --------------------------------------------------------------- truth
    def truth(self, v, node=None):
        if v is None or v is False:
            return False
        if v is True:
            return True
        if isinstance(v, int):
            return v != 0
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, Num):
            return not self.decide(v, 0, frozenset('='), 'truth')
        if isinstance(v, (NaN, Inf)):
            return True
        if isinstance(v, (PyList, PyDict, PySet, RangeV, DictView)):
            return self.truth(self.length(v))
        if isinstance(v, SStr):
            return True
        if isinstance(v, PyObj):
            if isinstance(v.cls, Class):
                for nm in ('__bool__', '__len__'):
                    f = self.find_attr(v.cls, nm)
                    if f is not None:
                        return self.truth(self.call(Bound(v, f), [], {}, node))
            return True
        if isinstance(v, Opaque):
            self.note('truth of opaque value')
            return self.choose(2, 'truth-opaque') == 0
        return True

    # -------------------------------------------------------------- length
    def length(self, v, node=None):
        if isinstance(v, (str, tuple)):
            return len(v)
        if isinstance(v, PyList):
            self.full(v)
            return self._len_items(v._items)
        if isinstance(v, PyDict):
            n, s = 0, None
            for k, _ in v.d.values():
                m = self.key_mult(k)
                if m is None:
                    n += 1
                else:
                    s = m if s is None else N.add(s, m)
            return n if s is None else self.norm(N.add(self.num(n), s))
        if isinstance(v, PySet):
            n, s = 0, None
            for k in v.d.values():
                m = self.key_mult(k)
                if m is None:
                    n += 1
                else:
                    s = m if s is None else N.add(s, m)
            return n if s is None else self.norm(N.add(self.num(n), s))
        if isinstance(v, DictView):
            return self.length(v.d)
        if isinstance(v, RangeV):
            return self.norm(N.add(self.num(v.b), self.num(v.a), -1)) if v.c == 1 else len(range(v.a, v.b, v.c))
        if isinstance(v, SStr):
            return self.fresh('len', 0, INF, 'int')
        if isinstance(v, PyObj) and isinstance(v.cls, Class):
            f = self.find_attr(v.cls, '__len__')
            if f is not None:
                return self.call(Bound(v, f), [], {}, node)
        raise self.exc(TypeError, 'object has no len()', node)

    def _len_items(self, items):
        n, s = 0, None
        for it in items:
            if isinstance(it, Summ):
                if self.mult_zero(it.m):
                    continue
                s = it.m if s is None else N.add(s, it.m)
            else:
                n += 1
        if s is None:
            return n
        return self.norm(N.add(N.const(n), s))

    # ----------------------------------------------------- list resolution
    def full(self, lst):
        """Resolve a lazily permuted list completely."""
        while lst.pending:
            self._pick(lst)

    def _pick(self, lst):
        pend = lst.pending
        cand = [i for i, x in enumerate(pend) if not isinstance(x[1], Summ)]
        if isinstance(pend, SortPend) and len(cand) > 1:
            def first(j, i):
                a, b = pend[j][0], pend[i][0]
                return self.try_less(b, a) is True if pend.rev else self.try_less(a, b) is True
            free = [i for i in cand if not any(j != i and first(j, i) for j in cand)]
            cand = free or cand
        if not cand:
            lst._items.extend(x[1] for x in pend)
            lst.pending = None
            return
        if len(cand) == 1:
            i = cand[0]
        else:
            mk = ('pick', tuple(sorted(str(self.valkey(pend[j][0])) for j in cand)))
            want = self.memo.get(mk)
            i = None
            if want is not None:
                for j in cand:
                    if str(self.valkey(pend[j][0])) == want:
                        i = j
                        break
            if i is None:
                i = cand[self.choose(len(cand), 'order')]
                self.memo[mk] = str(self.valkey(pend[i][0]))
        lst._items.append(pend[i][1])
        del pend[i]
        if not pend:
            lst.pending = None

    def valkey(self, v):
        if isinstance(v, Num):
            return ('n', v.key())
        if isinstance(v, int):
            return ('n', N.vkey(Decimal(int(v))))
        if isinstance(v, tuple):
            return tuple(self.valkey(x) for x in v)
        if isinstance(v, (PyObj, PyList, PyDict, PySet)):
            return ('o', v.tag or v.oid)
        if isinstance(v, (str, type(None), SStr)):
            return ('s', repr(v))
        return ('id', id(v))

    # --------------------------------------------------------- attributes
    def find_attr(self, cls, name, default=None):
        for c in cls.mro:
            if isinstance(c, Class) and name in c.ns:
                return c.ns[name]
        return default

    def class_of(self, v):
        if isinstance(v, PyObj):
            return v.cls
        if v is None:
            return BClass(type(None))
        if isinstance(v, bool):
            return BClass(bool)
        if isinstance(v, int):
            return BClass(int)
        if isinstance(v, Num):
            return BClass(int if v.t == 'int' else fractions.Fraction if v.t == 'frac' else float)
        if isinstance(v, (NaN, Inf)):
            return BClass(float)
        if isinstance(v, (str, SStr)):
            return BClass(str)
        if isinstance(v, tuple):
            return BClass(tuple)
        if isinstance(v, PyList):
            return BClass(list)
        if isinstance(v, PyDict):
            return BClass(dict)
        if isinstance(v, PySet):
            return BClass(frozenset if v.frozen else set)
        if isinstance(v, (Class, BClass)):
            return BClass(type)
        if isinstance(v, Opaque):
            return BClass(object)
        if isinstance(v, Builtin):
            return BClass(type(len))
        if isinstance(v, Bound):
            return BClass(types.MethodType)
        if isinstance(v, Func):
            return BClass(type(lambda: 0))
        if isinstance(v, IterV):
            return BClass(types.GeneratorType)
        if isinstance(v, RangeV):
            return BClass(range)
        return BClass(object)

    def isinstance_(self, v, cls):
        if isinstance(cls, tuple):
            return any(self.isinstance_(v, c) for c in cls)
        c = self.class_of(v)
        if isinstance(c, Class):
            if isinstance(cls, Class):
                return cls in c.mro
            if isinstance(cls, BClass):
                if cls.py is object:
                    return True
                if cls.name == 'Hashable':
                    return True
                return any(isinstance(b, BClass) and issubclass(b.py, cls.py) for b in c.mro)
            return False
        if isinstance(cls, BClass):
            if cls.name == 'Hashable':
                try:
                    self.hkey(v)
                    return not isinstance(v, (PyList, PyDict)) and not (isinstance(v, PySet) and not v.frozen)
                except PyRaise:
                    # Hashable only looks at the type
                    return isinstance(v, tuple)
            try:
                return issubclass(c.py, cls.py)
            except TypeError:
                return False
        return False

    def getattr_(self, o, name, node=None):
        if isinstance(o, PyObj):
            if name == '__class__':
                return o.cls
            if name in o.fields:
                v = o.fields[name]
                if isinstance(v, Lazy):
                    v = v.fn(self)
                    o.fields[name] = v
                return v
            if name == '__dict__':
                d = PyDict(self)
                for k in list(o.fields):
                    self.dset(d, k, self.getattr_(o, k), raw=True)
                d.owner = o
                return d
            if isinstance(o.cls, Class):
                a = self.find_attr(o.cls, name, ABSENT)
                if a is not ABSENT:
                    return self.bind(o, a, node)
                g = self.find_attr(o.cls, '__getattr__')
                if g is not None:
                    return self.call(Bound(o, g), [name], {}, node)
            if name == '__init__':
                return Builtin('object.__init__', lambda I, a, k, n: None)
            if o.meta and o.meta[0] == 'file':
                m = self.bi.method(self, o, name)
                if m is None:
                    raise Unsupported('files have more operations than modelled: %s' % name)
                return m
            if hasattr(object, name) or name in ('__dict__', '__weakref__', '__module__'):
                raise Unsupported('attribute %s of an object' % name)
            raise self.exc(AttributeError, "no attribute '%s'" % name, node)
        if isinstance(o, Class):
            if name == '__name__':
                return o.name
            if name == '__mro__':
                return tuple(o.mro)
            a = self.find_attr(o, name, ABSENT)
            if a is not ABSENT:
                if isinstance(a, PropertyV) and a.kind in ('classmethod',):
                    return Bound(o, a.fn)
                if isinstance(a, PropertyV) and a.kind == 'staticmethod':
                    return a.fn
                return a
            if name == '__init__':
                return Builtin('object.__init__', lambda I, a, k, n: None)
            if name == '__new__':
                return Builtin('object.__new__', lambda I, a, k, n: PyObj(I, a[0]))
            for b in o.mro:
                if isinstance(b, BClass):
                    return self.getattr_(b, name, node)
            if hasattr(type, name):
                raise Unsupported('attribute %s of a class' % name)
            raise self.exc(AttributeError, "class has no attribute '%s'" % name, node)
        if isinstance(o, ModuleV):
            if name in o.env:
                if o.env[name].__class__ is Poison:
                    raise Unsupported(o.env[name].why)
                return o.env[name]
            sub = self.module(o.name + '.' + name)
            if sub is not None:
                return sub
            b = self.bi.external(self, o.name, name)
            if b is not None:
                return b
            raise self.exc(AttributeError, "module '%s' has no attribute '%s'" % (o.name, name), node)
        if isinstance(o, SuperV):
            mro = o.obj.cls.mro if isinstance(o.obj, PyObj) else o.obj.mro
            i = mro.index(o.cls) + 1
            for c in mro[i:]:
                if isinstance(c, Class) and name in c.ns:
                    return self.bind(o.obj, c.ns[name], node)
            if name == '__init__':
                return Builtin('object.__init__', lambda I, a, k, n: None)
            if name == '__hash__':
                return Builtin('object.__hash__', lambda I, a, k, n: o.obj.oid)
            if hasattr(object, name):
                raise Unsupported('attribute %s of object' % name)
            raise self.exc(AttributeError, "super has no attribute '%s'" % name, node)
        if isinstance(o, Func):
            if name == '__name__':
                return o.name
            if name in o.attrs:
                return o.attrs[name]
            if hasattr(types.FunctionType, name):
                raise Unsupported('attribute %s of a function' % name)
            raise self.exc(AttributeError, "function has no attribute '%s'" % name, node)
        if isinstance(o, Bound):
            if name == '__self__':
                return o.self
            if name == '__func__':
                return o.fn
            if name == '__name__':
                return o.fn.name
        if isinstance(o, BClass) and name == '__name__':
            return o.name
        if name == '__class__':
            return self.class_of(o)
        if isinstance(o, NTuple) and name in o.names:
            return o[o.names.index(name)]
        if isinstance(o, NTuple):
            if name == '_fields':
                return o.names
            if name in ('_make', '_field_defaults'):
                raise Unsupported('attribute %s of a named tuple' % name)
        if isinstance(o, Builtin) and o.name == 'itertools.chain' and name == 'from_iterable':
            return Builtin('chain.from_iterable', self.bi.EXT['itertools', 'chain_from_iterable'])
        m = self.bi.method(self, o, name)
        if m is not None:
            return m
        if isinstance(o, Opaque):
            raise Unsupported('attribute %s of opaque value' % name)
        py = getattr(self.class_of(o), 'py', None)
        if py is dict:
            py = collections.Counter if hasattr(collections.Counter, name) else collections.OrderedDict
        elif py is list and hasattr(collections.deque, name):
            py = collections.deque
        if py is None or hasattr(py, name) or isinstance(o, (IterV, DictView, Bound, Builtin)):
            raise Unsupported('attribute %s of %s' % (name, type(o).__name__))
        raise self.exc(AttributeError, "'%s' object has no attribute '%s'" % (self.class_of(o).name, name), node)

    def bind(self, o, a, node):
        if isinstance(a, Func):
            return Bound(o, a)
        if isinstance(a, PropertyV):
            if a.kind == 'property':
                return self.call(Bound(o, a.fn), [], {}, node)
            if a.kind == 'cached':
                v = self.call(Bound(o, a.fn), [], {}, node)
                self.setattr_(o, a.fn.name, v, node)
                return v
            if a.kind == 'staticmethod':
                return a.fn
            if a.kind == 'classmethod':
                return Bound(o.cls if isinstance(o, PyObj) else o, a.fn)
        if isinstance(a, Builtin) and getattr(a, 'method', False):
            return Builtin(a.name, lambda I, ar, kw, n: a.fn(I, [o] + ar, kw, n))
        return a

    def setattr_(self, o, name, v, node=None):
        if isinstance(o, PyObj):
            if isinstance(o.cls, Class):
                a = self.find_attr(o.cls, name)
                if isinstance(a, PropertyV) and a.kind == 'property':
                    setter = getattr(a, 'setter', None)
                    if setter is None:
                        raise self.exc(AttributeError, "can't set attribute", node)
                    self.call(Bound(o, setter), [v], {}, node)
                    return
                sa = self.find_attr(o.cls, '__setattr__')
                if sa is not None:
                    raise Unsupported('__setattr__')
            old = o.fields.get(name)
            o.fields[name] = v
            self.wrote(o, ('.', name), old, v, node)
            return
        if isinstance(o, Class):
            old = o.ns.get(name)
            o.ns[name] = v
            self.wrote(o, ('.', name), old, v, node)
            return
        if isinstance(o, ModuleV):
            old = o.env.get(name)
            o.env[name] = v
            self.wrote(o, ('.', name), old, v, node)
            return
        if isinstance(o, Func):
            o.attrs[name] = v
            self.wrote(o, ('.', name), None, v, node)
            return
        raise self.exc(AttributeError, "cannot set attribute '%s'" % name, node)

    def clock(self):
        """Changes whenever something may make a repeated step come out differently."""
        return (len(self.trace), self.nwrote, self.rnd, self.fresh_n)

    def repeats(self, before, now):
        """Is this step, with this state, a repetition of earlier ones?"""
        from .harness import deep
        try:
            k = [deep(self, x) for x in now]
            c = self.clock()
            return sum(1 for d, a in before[-12:] if d == c and [deep(self, x) for x in a] == k) >= 3
        except Exception:
            return False

    def wrote(self, o, loc, old, new, node=None):
        self.nwrote += 1
        if self.track:
            self.writes.append((o, loc, old, new, where(node) if node is not None else (self.stack[-1] if self.stack else '?'),
                                tuple(self.stack)))

    # ----------------------------------------------------------- subscript
    def dget(self, d, k, node=None, default=KeyError):
        h = self.hkey(k, node)
        if h in d.d:
            v = d.d[h][1]
            if isinstance(v, Lazy):
                v = v.fn(self)
                d.d[h][1] = v
            return v
        if isinstance(k, Num) and not k.const and d.d and all(
                isinstance(kk, (int, Num)) and not isinstance(kk, bool) for kk, _ in d.d.values()):
            vals = [self.num(x) for _, x in d.d.values() if self.is_num(x)]
            if len(vals) == len(d.d):
                r = N.func('table%d' % len(d.d), k)
                r.lo, r.hi = min(x.lo for x in vals), max(x.hi for x in vals)
                N.B[list(r.lin)[0]] = (r.lo, r.hi)
                r.v = Decimal(r.lo) + (r.v + 10) / 20 * Decimal(r.hi - r.lo)
                return r
        if default is KeyError:
            if d.default is not None:
                v = self.call(d.default, [], {}, node)
                self.dset(d, k, v, node)
                return v
            raise self.exc(KeyError, k, node)
        return default

    def dset(self, d, k, v, node=None, raw=False):
        h = self.hkey(k, node)
        old = d.d[h][1] if h in d.d else None
        if h in d.d:
            d.d[h][1] = v
        else:
            d.d[h] = [k, v]
        if d.owner is not None:
            self.setattr_(d.owner, k, v, node)
        elif not raw:
            self.wrote(d, ('[]', k), old, v, node)

    def ddel(self, d, k, node=None):
        h = self.hkey(k, node)
        if h not in d.d:
            raise self.exc(KeyError, k, node)
        old = d.d.pop(h)[1]
        if d.owner is not None:
            d.owner.fields.pop(k, None)
            self.wrote(d.owner, ('.', k), old, None, node)
            return old
        self.wrote(d, ('del', k), old, None, node)
        return old

    def contains(self, c, k, node=None):
        if isinstance(c, DictView):
            if c.kind == 'keys':
                c = c.d
            else:
                vals = [x for x, _ in self.iterate(c, node)]
                return any(self.equal(x, k, node) for x in vals)
        if isinstance(c, (PyDict, PySet)):
            return self.hkey(k, node) in c.d
        if isinstance(c, PyList):
            self.full(c)
            for it in list(c._items):
                x = it.v if isinstance(it, Summ) else it
                if self.equal(x, k, node):
                    return True
            return False
        if isinstance(c, tuple):
            return any(self.equal(x, k, node) for x in c)
        if isinstance(c, str):
            if isinstance(k, str):
                return k in c
            if isinstance(k, SStr):
                return self.choose(2, 'substr') == 0
            raise self.exc(TypeError, 'in <string> requires string', node)
        if isinstance(c, SStr):
            return self.choose(2, 'substr') == 0
        if isinstance(c, IterV):
            return any(self.equal(x, k, node) for x, _ in self.live_iter(c, node))
        if isinstance(c, RangeV):
            if not self.is_num(k):
                return False
            k = self.norm(k)
            if all(isinstance(x, int) for x in (k, c.a, c.b, c.c)):
                return k in range(c.a, c.b, c.c)
            if c.c != 1 or not (isinstance(k, int) or k.t == 'int'):
                raise Unsupported('membership of a range')
            return self.truth(self.binop_cmp('>=', k, c.a)) and self.truth(self.binop_cmp('<', k, c.b))
        if isinstance(c, PyObj) and isinstance(c.cls, Class):
            f = self.find_attr(c.cls, '__contains__')
            if f is not None:
                return self.truth(self.call(Bound(c, f), [k], {}, node))
            if self.find_attr(c.cls, '__iter__') is not None:
                return any(self.equal(x, k, node) for x, _ in self.live_iter(c, node))
        raise self.exc(TypeError, 'argument is not iterable', node)

    def binop_cmp(self, op, a, b):
        m = {'<': '<', '<=': '<=', '>': '>', '>=': '>='}
        return self.decide(a, b, frozenset(m[op]), op)

    def getitem(self, o, k, node=None):
        if isinstance(o, PyDict):
            return self.dget(o, k, node)
        if isinstance(k, SliceV):
            return self.slice(o, k, node)
        if isinstance(o, PyList):
            if isinstance(k, IdxSumm):
                self.full(o)
                for it in o._items:
                    if isinstance(it, Summ):
                        return it.v
                raise Prune()
            k = self.norm(k)
            if isinstance(k, Num):
                if k.const and k.c.denominator != 1:
                    raise self.exc(TypeError, 'list indices must be integers', node)
                self.full(o)
                if vkey_eq(self, N.add(k, N.const(1)), self.length(o)):
                    k = -1
                else:
                    k = self.some_index(k, o)
            if isinstance(k, bool):
                k = int(k)
            if not isinstance(k, int):
                raise self.exc(TypeError, 'list indices must be integers', node)
            if k >= 0 and o.pending:
                while o.pending and len(o._items) <= k:
                    self._pick(o)
            else:
                self.full(o)
            items = o._items
            live = [x for x in items if not (isinstance(x, Summ) and self.mult_zero(x.m))]
            ex = [x for x in live if not isinstance(x, Summ)]
            if len(ex) == len(live):
                try:
                    return live[k]
                except IndexError:
                    raise self.exc(IndexError, 'list index out of range', node)
            if 0 <= k < len(ex):
                return ex[k]
            if k < 0 and isinstance(live[k], Summ) is False:
                return live[k]
            raise Unsupported('index into summary')
        if isinstance(o, (str, tuple)):
            k = self.norm(k)
            if not isinstance(k, int):
                raise self.exc(TypeError, 'indices must be integers', node)
            try:
                return o[k]
            except IndexError:
                raise self.exc(IndexError, 'index out of range', node)
        if isinstance(o, SStr):
            p = o.parts[0]
            if k == 0 and isinstance(p, str):
                return p[0]
            return SStr((('idx', o.parts, self.hkey(k)),))
        if isinstance(o, RangeV):
            return self.add(o.a, k)
        if isinstance(o, PyObj) and isinstance(o.cls, Class):
            f = self.find_attr(o.cls, '__getitem__')
            if f is not None:
                return self.call(Bound(o, f), [k], {}, node)
        raise self.exc(TypeError, "'%s' object is not subscriptable" % self.class_of(o).name, node)

    def slice(self, o, s, node):
        def ix(x):
            x = self.norm(x)
            return x
        a, b, c = ix(s.a), ix(s.b), ix(s.c)
        if isinstance(o, (str, tuple)):
            if all(x is None or isinstance(x, int) for x in (a, b, c)):
                return o[a:b:c]
            raise Unsupported('abstract slice')
        if isinstance(o, PyList):
            if all(x is None or isinstance(x, int) for x in (a, b, c)):
                if o.pending and isinstance(b, int) and b >= 0 and (a is None or a >= 0) and c in (None, 1):
                    while o.pending and len(o._items) < b:
                        self._pick(o)
                    return PyList(self, o._items[a:b])
                self.full(o)
                live = [x for x in o._items if not (isinstance(x, Summ) and self.mult_zero(x.m))]
                if (b is not None or (a or 0) != 0) and any(isinstance(x, Summ) for x in live):
                    self.note('slice of a summarised list')
                return PyList(self, live[a:b:c])
            # abstract upper bound
            self.full(o)
            live = [x for x in o._items if not (isinstance(x, Summ) and self.mult_zero(x.m))]
            if (a in (None, 0)) and c in (None, 1) and isinstance(b, Num):
                for i in range(len(live)):
                    if self.decide(b, i, frozenset('<='), 'slice'):
                        return PyList(self, live[:i])
                return PyList(self, live)
            raise Unsupported('abstract slice')
        if isinstance(o, SStr):
            if a == 0 or a is None:
                if isinstance(o.parts[0], str) and b == 1:
                    return o.parts[0][:1]
            return SStr((('slice', o.parts, repr((a, b, c))),))
        raise self.exc(TypeError, 'object is not subscriptable', node)

    def setitem(self, o, k, v, node=None):
        if isinstance(o, PyDict):
            self.dset(o, k, v, node)
            return
        if isinstance(o, PyList):
            self.full(o)
            if isinstance(k, SliceV):
                if k.a is None and k.b is None and k.c is None:
                    new = self.summ_items(v, node)
                    old = list(o._items)
                    o._items[:] = new
                    self.wrote(o, ('[:]',), old, new, node)
                    return
                new = self.summ_items(v, node)
                o._items[self.norm(k.a):self.norm(k.b):self.norm(k.c)] = new
                self.wrote(o, ('[:]',), None, None, node)
                return
            k = self.norm(k)
            if isinstance(k, IdxSumm):
                for i, it in enumerate(o._items):
                    if isinstance(it, Summ):
                        o._items[i] = Summ(it.m, v)
                        self.wrote(o, ('[]', '*'), it.v, v, node)
                return
            if not isinstance(k, int):
                raise Unsupported('abstract list store')
            try:
                k = self.place(o, k)
                old = o._items[k]
                o._items[k] = v
            except IndexError:
                raise self.exc(IndexError, 'list assignment index out of range', node)
            self.wrote(o, ('[]', k), old, v, node)
            return
        if isinstance(o, PyObj) and isinstance(o.cls, Class):
            f = self.find_attr(o.cls, '__setitem__')
            if f is not None:
                self.call(Bound(o, f), [k, v], {}, node)
                return
        raise self.exc(TypeError, 'object does not support item assignment', node)

    def some_index(self, k, o):
        """An index drawn at random: any of its values."""
        n = len(o._items)
        if k.const or k.t != 'int' or not (k.lo >= 0 and k.hi < n) or any(isinstance(x, Summ) for x in o._items):
            raise Unsupported('abstract index')
        mk = ('index', k.key())
        if mk not in self.memo:
            c = list(range(int(k.lo), int(k.hi) + 1))
            self.memo[mk] = c[self.choose(len(c), 'index')] if len(c) > 1 else c[0]
        return self.memo[mk]

    def place(self, o, k):
        """Position in o._items of index k: a non-negative index counts the
        explicit elements (a summary stands at the end, wherever it is kept)."""
        if k < 0 or not any(isinstance(x, Summ) for x in o._items):
            return k
        ex = [i for i, x in enumerate(o._items) if not isinstance(x, Summ)]
        if k < len(ex):
            return ex[k]
        raise Unsupported('index into summary')

    def summ_items(self, v, node=None):
        """Items of an iterable, summary elements wrapped."""
        out = []
        for x, m in self.iterate(v, node):
            out.append(x if m is None else Summ(m, x))
        return out

    # ----------------------------------------------------------- iteration
    def iterate(self, v, node=None):
        """Snapshot iteration: [(value, multiplicity or None)]."""
        if isinstance(v, PyList):
            self.full(v)
            return [(it.v, it.m) if isinstance(it, Summ) else (it, None) for it in v._items
                    if not (isinstance(it, Summ) and self.mult_zero(it.m))]
        if isinstance(v, (tuple, str)):
            return [(x, None) for x in v]
        if isinstance(v, PyDict):
            return [(k, self.key_mult(k)) for k, _ in v.d.values()]
        if isinstance(v, PySet):
            return [(k, self.key_mult(k)) for k in v.d.values()]
        if isinstance(v, DictView):
            out = []
            for h in list(v.d.d):
                k = v.d.d[h][0]
                m = self.key_mult(k)
                if v.kind == 'keys':
                    out.append((k, m))
                elif v.kind == 'values':
                    out.append((self.dget(v.d, k), m))
                else:
                    out.append(((k, self.dget(v.d, k)), m))
            return out
        if isinstance(v, IterV):
            p = v.pairs
            v.pairs = []
            return p
        if isinstance(v, PyObj) and v.meta and v.meta[0] == 'file':
            return [(x, None) for x in self.bi.file_lines(self, v)]
        if isinstance(v, RangeV):
            a, b, c = v.a, v.b, v.c
            if all(isinstance(x, int) for x in (a, b, c)):
                r = range(a, b, c)
                if len(r) > 50000:
                    raise Unsupported('long range')
                return [(x, None) for x in r]
            if c == 1 and isinstance(a, int) and isinstance(b, Num):
                # len(explicit)+m : explicit indices then a summary index
                k = b.c
                if b.t == 'int' and k.denominator == 1:
                    lin = Num(b.v - N._dec(k), b.lin, Fraction(0), b.lo - float(k), b.hi - float(k), 'int')
                    out = [(i, None) for i in range(a, int(k))]
                    if not self.mult_zero(lin):
                        out.append((IdxSumm(lin), lin))
                    return out
            raise Unsupported('abstract range')
        if isinstance(v, SStr):
            raise Unsupported('iterating abstract string')
        if isinstance(v, PyObj) and isinstance(v.cls, Class):
            f = self.find_attr(v.cls, '__iter__')
            if f is not None:
                return list(self.live_iter(v, node))
        if isinstance(v, Opaque):
            raise Unsupported('iterating opaque value')
        raise self.exc(TypeError, "'%s' object is not iterable" % self.class_of(v).name, node)

    def live_iter(self, v, node=None):
        """Iteration with python's live semantics for lists and dicts."""
        if isinstance(v, PyList):
            self.full(v)
            i = 0
            while i < len(v._items):
                it = v._items[i]
                if isinstance(it, Summ):
                    if not self.mult_zero(it.m):
                        yield it.v, it.m
                else:
                    yield it, None
                i += 1
            return
        if isinstance(v, PyDict) or (isinstance(v, PySet)) or isinstance(v, DictView):
            d = v.d.d if isinstance(v, DictView) else v.d
            n = len(d)
            for x in self.iterate(v, node):
                if len(d) != n:
                    raise self.exc(RuntimeError, 'changed size during iteration', node)
                yield x
            if len(d) != n:
                # the last element changed it: python only notices on next()
                raise self.exc(RuntimeError, 'changed size during iteration', node)
            return
        if isinstance(v, RangeV) and all(isinstance(x, int) for x in (v.a, v.b, v.c)) and v.c:
            for x in range(v.a, v.b, v.c):
                yield x, None
            return
        if isinstance(v, LazyV):
            while True:
                p = v.step()
                if p is None:
                    return
                yield p
        if isinstance(v, PyObj) and isinstance(v.cls, Class) and self.find_attr(v.cls, '__iter__') is not None:
            it = self.call(Bound(v, self.find_attr(v.cls, '__iter__')), [], {}, node)
            nx = self.find_attr(it.cls, '__next__') if isinstance(it, PyObj) and isinstance(it.cls, Class) else None
            if nx is None:
                if it is v:
                    raise self.exc(TypeError, 'iter() returned non-iterator', node)
                for p in self.live_iter(it, node):
                    yield p
                return
            for _ in range(50000):
                try:
                    x = self.call(Bound(it, nx), [], {}, node)
                except PyRaise as p:
                    if self.isinstance_(p.exc, self.builtins['StopIteration']):
                        return
                    raise
                yield x, None
            raise Unsupported('iterator bound')
        if isinstance(v, IterV):
            while v.pairs:
                yield v.pairs.pop(0)
            return
        for x in self.iterate(v, node):
            yield x

    # ------------------------------------------------------------ equality
    def equal(self, a, b, node=None):
        if a is b and not isinstance(a, NaN):
            return True
        if self.is_num(a) and self.is_num(b):
            return self.decide(a, b, frozenset('='), 'eq')
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, SStr) and isinstance(b, SStr):
            if a == b:
                return True
            return False
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            s, c = (a, b) if isinstance(a, SStr) else (b, a)
            p = s.parts[0] if s.parts else ''
            if isinstance(p, str) and not c.startswith(p):
                return False
            q = s.parts[-1] if s.parts else ''
            if isinstance(q, str) and not c.endswith(q):
                return False
            return self.choose(2, 'streq') == 0
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return all(self.equal(x, y, node) for x, y in zip(a, b))
        for x, y in ((a, b), (b, a)):
            if isinstance(x, PyObj) and isinstance(x.cls, Class):
                f = self.find_attr(x.cls, '__eq__')
                if f is not None:
                    return self.truth(self.call(Bound(x, f), [y], {}, node))
        if isinstance(a, PyList) and isinstance(b, PyList):
            x, y = self.summ_items(a), self.summ_items(b)
            if len(x) != len(y):
                return False
            return all(self.equal(p.v if isinstance(p, Summ) else p, q.v if isinstance(q, Summ) else q)
                       for p, q in zip(x, y))
        if isinstance(a, PyDict) and isinstance(b, PyDict):
            if set(a.d) != set(b.d):
                return False
            return all(self.equal(self.dget(a, k), self.dget(b, k)) for k, _ in list(a.d.values()))
        if isinstance(a, PySet) and isinstance(b, PySet):
            return set(a.d) == set(b.d)
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a.name == b.name
        return False

    def less(self, a, b, node=None, op='<'):
        """a < b (also used for the other orders)."""
        if self.is_num(a) and self.is_num(b):
            return self.decide(a, b, frozenset(op), op)
        if isinstance(a, str) and isinstance(b, str):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            return self.choose(2, 'strcmp') == 0
        if isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in zip(a, b):
                if not self.equal(x, y, node):
                    return self.less(x, y, node, op)
            return {'<': len(a) < len(b), '<=': len(a) <= len(b), '>': len(a) > len(b), '>=': len(a) >= len(b)}[op]
        if isinstance(a, PyList) and isinstance(b, PyList):
            return self.less(tuple(x for x, _ in self.iterate(a)), tuple(x for x, _ in self.iterate(b)), node, op)
        if isinstance(a, PySet) and isinstance(b, PySet):
            x, y = set(a.d), set(b.d)
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        dn = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}
        rf = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}
        if isinstance(a, PyObj) and isinstance(a.cls, Class):
            f = self.find_attr(a.cls, dn[op])
            if f is not None:
                return self.truth(self.call(Bound(a, f), [b], {}, node))
        if isinstance(b, PyObj) and isinstance(b.cls, Class):
            f = self.find_attr(b.cls, dn[rf[op]])
            if f is not None:
                return self.truth(self.call(Bound(b, f), [a], {}, node))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('ordering opaque values')
        raise self.exc(TypeError, "'%s' not supported between instances of '%s' and '%s'" % (
            op, self.class_of(a).name, self.class_of(b).name), node)

    def try_less(self, a, b, node=None):
        """a < b without forking: True/False/None (unknown).  May raise."""
        if self.is_num(a) and self.is_num(b):
            r = self.cmp_rel(a, b)
            if r == frozenset('<'):
                return True
            if '<' not in r:
                return False
            return None
        if isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in zip(a, b):
                e = self.try_equal(x, y)
                if e is True:
                    continue
                if e is None:
                    return None
                return self.try_less(x, y, node)
            return len(a) < len(b)
        if isinstance(a, SStr) or isinstance(b, SStr):
            return None
        return self.less(a, b, node)

    def try_equal(self, a, b):
        if self.is_num(a) and self.is_num(b):
            r = self.cmp_rel(a, b)
            if r == frozenset('='):
                return True
            if '=' not in r:
                return False
            return None
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            res = True
            for x, y in zip(a, b):
                e = self.try_equal(x, y)
                if e is False:
                    return False
                if e is None:
                    res = None
            return res
        if isinstance(a, SStr) or isinstance(b, SStr):
            return True if a == b else None
        return self.equal(a, b)

    def sort_items(self, items, keys, reverse, node=None):
        """Returns (items sorted) or a PyList pending-form when unknown."""
        n = len(items)
        self.sorts.append((where(node) if node is not None else '?', [k for k in keys]))
        pairs = list(zip(keys, items))
        explicit = [p for p in pairs if not isinstance(p[1], Summ)]
        known = True
        cmpm = {}
        for i in range(len(explicit)):
            for j in range(i + 1, len(explicit)):
                x = self.try_less(explicit[i][0], explicit[j][0], node)
                y = self.try_less(explicit[j][0], explicit[i][0], node) if x is not True else False
                if x is None or y is None:
                    known = False
                    cmpm[i, j] = None
                else:
                    cmpm[i, j] = -1 if x else (1 if y else 0)
        if known and len(explicit) == n:
            import functools
            idx = list(range(n))

            def cmp(i, j):
                if i == j:
                    return 0
                return cmpm[i, j] if i < j else -cmpm[j, i]
            idx.sort(key=functools.cmp_to_key(cmp), reverse=reverse)
            return [explicit[i][1] for i in idx], None
        # keep what is known: never place x after y if x must precede y is
        # ignored -- any order is a sound over-approximation here
        p = SortPend((k, it) for k, it in pairs)
        p.rev = bool(reverse)
        return [], p

    # ---------------------------------------------------------- arithmetic
    def add(self, a, b):
        return self.binop(ast.Add, a, b)

    def binop(self, op, a, b, node=None):
        if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
            return self.str_op(op, a, b, node)
        if self.is_num(a) and self.is_num(b):
            return self.num_op(op, a, b, node)
        if isinstance(a, tuple) and isinstance(b, tuple) and op is ast.Add:
            return a + b
        if isinstance(a, tuple) and isinstance(b, int) and op is ast.Mult:
            return a * b
        if isinstance(a, PyList) and isinstance(b, PyList) and op is ast.Add:
            self.full(a)
            self.full(b)
            return PyList(self, a._items + b._items)
        if isinstance(a, PyList) and op is ast.Mult:
            b = self.norm(b)
            if isinstance(b, int):
                return PyList(self, a._items * b)
            self.full(a)
            if isinstance(b, Num) and len(a._items) == 1:
                return PyList(self, [Summ(b, a._items[0])])
            raise Unsupported('list * abstract')
        if isinstance(a, (PySet, DictView)) and isinstance(b, (PySet, DictView)):
            nm = {ast.BitOr: 'union', ast.BitAnd: 'intersection', ast.Sub: 'difference',
                  ast.BitXor: 'symmetric_difference'}.get(op)
            if nm:
                if isinstance(a, DictView):
                    s = PySet(self)
                    for k, _ in self.iterate(a):
                        s.d[self.hkey(k)] = k
                    a = s
                return self.call(self.bi.method(self, a, nm), [b], {}, node)
        if isinstance(a, PyDict) and isinstance(b, PyDict) and op is ast.BitOr:
            r = PyDict(self)
            for x in (a, b):
                for k, _ in list(x.d.values()):
                    self.dset(r, k, self.dget(x, k), raw=True)
            return r
        dn = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.BitOr: 'or',
              ast.BitAnd: 'and', ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow'}.get(op)
        if dn:
            if isinstance(a, PyObj) and isinstance(a.cls, Class):
                f = self.find_attr(a.cls, '__%s__' % dn)
                if f is not None:
                    return self.call(Bound(a, f), [b], {}, node)
            if isinstance(b, PyObj) and isinstance(b.cls, Class):
                f = self.find_attr(b.cls, '__r%s__' % dn)
                if f is not None:
                    return self.call(Bound(b, f), [a], {}, node)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('arithmetic on opaque value')
        raise self.exc(TypeError, 'unsupported operand types', node)

    def to_str(self, v):
        if isinstance(v, (str, SStr)):
            return v
        if isinstance(v, bool) or v is None or isinstance(v, int):
            return str(v)
        if isinstance(v, Num):
            if v.const:
                f = float(v.c)
                return str(int(v.c)) if v.t == 'int' else repr(f)
            return SStr((('num', v.key()),))
        if isinstance(v, (tuple, PyList, PyDict)):
            try:
                return str(self.concrete(v))
            except ValueError:
                pass
        if isinstance(v, tuple):
            return SStr((('repr', str(self.valkey(v))),))
        if isinstance(v, Inf):
            return repr(v)
        if isinstance(v, PyObj) and isinstance(v.cls, Class):
            for nm in ('__str__', '__repr__'):
                f = self.find_attr(v.cls, nm)
                if f is not None:
                    return self.call(Bound(v, f), [], {}, None)
        if isinstance(v, PyObj) and isinstance(v.cls, BClass):
            a = v.fields.get('args', ())
            return self.to_str(a[0]) if a else ''
        if isinstance(v, (PyList, PyDict, PySet)):
            return SStr((('repr', self.deepkey(v)),))
        if isinstance(v, Class):
            return repr(v)
        return SStr((('repr', str(self.valkey(v))),))

    def concrete(self, v, depth=0):
        """The python value of a fully known abstract one (ValueError if it is not)."""
        if v is None or isinstance(v, (str, bool, int)):
            return v
        if isinstance(v, Num) and v.const:
            return int(v.c) if v.t == 'int' else float(v.c)
        if depth < 6:
            if isinstance(v, tuple):
                return tuple(self.concrete(x, depth + 1) for x in v)
            if isinstance(v, PyList):
                self.full(v)
                return [self.concrete(x, depth + 1) for x in v._items]
            if isinstance(v, PyDict) and v.default is None and not v.summ:
                return {self.concrete(k, depth + 1): self.concrete(self.dget(v, k), depth + 1) for k, _ in list(v.d.values())}
        raise ValueError('abstract')

    def fmt_value(self, v, conv='', spec=''):
        """One formatted value as string parts."""
        if isinstance(spec, str) and (spec or conv in ('d', 'i', 'f', 'g', 'e', 'x')):
            try:
                c = self.concrete(v)
                if conv:
                    return (('%' + spec + conv) % (c,),)
                return (format(c, spec),)
            except (ValueError, TypeError):
                if spec or conv not in ('d', 'i') or not (isinstance(v, Num) and v.t == 'int'):
                    return (('fmt', conv, spec, self.deepkey(v)),)
        if spec and not isinstance(spec, str):
            return (('fmt', conv, repr(spec), self.deepkey(v)),)
        s = repr(v) if conv == 'r' and isinstance(v, str) else self.to_str(v)
        return s.parts if isinstance(s, SStr) else (s,)

    def mkstr(self, parts):
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return SStr(parts)

    def deepkey(self, v, depth=0):
        if depth > 6:
            return '...'
        if isinstance(v, PyList):
            self.full(v)
            return 'L(' + ','.join(self.deepkey(x.v if isinstance(x, Summ) else x, depth + 1) for x in v._items) + ')'
        if isinstance(v, PyDict):
            return 'D(' + ','.join(self.deepkey(k, depth + 1) + ':' + self.deepkey(self.dget(v, k), depth + 1)
                                   for k, _ in list(v.d.values())) + ')'
        if isinstance(v, PySet):
            return 'S(' + ','.join(sorted(self.deepkey(k, depth + 1) for k in v.d.values())) + ')'
        if isinstance(v, tuple):
            return 'T(' + ','.join(self.deepkey(x, depth + 1) for x in v) + ')'
        if isinstance(v, PyObj):
            return 'O%s' % (v.tag or v.oid)
        return str(self.valkey(v))

    def str_op(self, op, a, b, node):
        if op is ast.Add:
            if not isinstance(a, (str, SStr)) or not isinstance(b, (str, SStr)):
                raise self.exc(TypeError, 'can only concatenate str', node)
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            pa = (a,) if isinstance(a, str) else a.parts
            pb = (b,) if isinstance(b, str) else b.parts
            return SStr(pa + pb)
        if op is ast.Mult:
            s, n = (a, b) if isinstance(a, (str, SStr)) else (b, a)
            n = self.norm(n)
            if isinstance(s, str) and isinstance(n, int):
                return s * n
            return SStr((('rep', repr(s), str(self.valkey(n))),))
        if op is ast.Mod:
            if isinstance(a, str):
                import re
                toks = re.split(r'(%(?:\([^)]*\))?[-+ #0]*[0-9]*(?:\.[0-9]+)?[a-zA-Z%])', a)
                args = list(b) if isinstance(b, tuple) else [b]
                parts, ok = [], True
                for t in toks:
                    if not t.startswith('%') or len(t) < 2:
                        parts.append(t)
                        ok = ok and '%' not in t
                        continue
                    if t == '%%':
                        parts.append('%')
                        continue
                    body = t[1:-1]
                    if body.startswith('('):
                        key, body = body[1:].split(')', 1)
                        if not isinstance(b, PyDict):
                            ok = False
                            break
                        v = self.dget(b, key)
                    elif args:
                        v = args.pop(0)
                    else:
                        raise self.exc(TypeError, 'not enough arguments for format string', node)
                    parts.extend(self.fmt_value(v, t[-1], body))
                if ok:
                    if args and isinstance(b, tuple):
                        raise self.exc(TypeError, 'not all arguments converted during string formatting', node)
                    return self.mkstr(parts)
            return SStr((('fmt', repr(a), self.deepkey(b)),))
        raise self.exc(TypeError, 'bad string operand', node)

    def num_op(self, op, a, b, node=None):
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, NaN) or isinstance(b, NaN):
            return NaN()
        if isinstance(a, Inf) or isinstance(b, Inf):
            if op is ast.Add:
                return a if isinstance(a, Inf) else b
            if op is ast.Sub:
                return a if isinstance(a, Inf) else Inf(-b.s)
            if op is ast.Mult:
                return a if isinstance(a, Inf) else b
            if op is ast.Div:
                return a if isinstance(a, Inf) else N.const(0, 'float')
            raise Unsupported('inf arithmetic')
        if isinstance(a, int) and isinstance(b, int):
            if op is ast.Add:
                return a + b
            if op is ast.Sub:
                return a - b
            if op is ast.Mult:
                return a * b
            if op is ast.FloorDiv or op is ast.Mod:
                if b == 0:
                    raise self.exc(ZeroDivisionError, 'integer division or modulo by zero', node)
                return a // b if op is ast.FloorDiv else a % b
            if op is ast.Pow and b >= 0 and b < 100:
                return a ** b
            if op is ast.BitAnd:
                return a & b
            if op is ast.BitOr:
                return a | b
            if op is ast.BitXor:
                return a ^ b
            if op is ast.LShift:
                return a << b
        x, y = self.num(a), self.num(b)
        if op is ast.Add:
            return self.norm(N.add(x, y))
        if op is ast.Sub:
            return self.norm(N.add(x, y, -1))
        if op is ast.Mult:
            return self.norm(N.mul(x, y))
        if op is ast.Div:
            rel = self.cmp_rel(y, 0)
            if rel == frozenset('='):
                raise self.exc(ZeroDivisionError, 'division by zero', node)
            if '=' in rel and self.fork_on_zero:
                if self.choose(2, 'zero-divisor') == 1:
                    self.learn(y, 0, frozenset('='))
                    raise self.exc(ZeroDivisionError, 'division by zero', node)
                self.learn(y, 0, rel - frozenset('='))
            return N.div(x, y)
        if op is ast.Pow:
            if y.const and y.c == 2:
                return self.norm(N.mul(x, x))
            if y.const and y.c == Fraction(1, 2):
                return N.sqrt(x)
            if y.const and y.c.denominator == 1 and 0 <= y.c <= 8:
                r = N.const(1, x.t)
                for _ in range(int(y.c)):
                    r = N.mul(r, x)
                return self.norm(r)
            if y.const and y.c.denominator == 1 and -8 <= y.c < 0:
                r = N.const(1, x.t)
                for _ in range(int(-y.c)):
                    r = N.mul(r, x)
                return N.div(N.const(1), r)
            if y.const and y.c == Fraction(-1, 2):
                return N.div(N.const(1), N.sqrt(x))
            return N.func('pow', x, y)
        if op in (ast.FloorDiv, ast.Mod):
            if self.cmp_rel(y, 0) == frozenset('='):
                raise self.exc(ZeroDivisionError, 'modulo by zero', node)
            if x.const and y.const:
                q = x.c // y.c
                r = q if op is ast.FloorDiv else x.c - q * y.c
                t = N._jt(x, y)
                return self.norm(N.const(int(r), t) if r.denominator == 1 else N.const(r, t))
            return N.func(op.__name__, x, y)
        raise Unsupported('operator %s' % op.__name__)

    def unary(self, op, v, node):
        if op is ast.Not:
            return not self.truth(v, node)
        if op is ast.USub:
            if isinstance(v, Inf):
                return Inf(-v.s)
            if isinstance(v, NaN):
                return v
            if self.is_num(v):
                return self.norm(N.scale(self.num(v), -1))
            raise self.exc(TypeError, 'bad operand type for unary -', node)
        if op is ast.UAdd:
            return v
        if op is ast.Invert and isinstance(v, int):
            return ~v
        raise Unsupported('unary')

    # ---------------------------------------------------------------- call
    def call(self, f, args, kw, node=None):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Unsupported('step budget exceeded')
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self] + list(args), kw, node)
        if isinstance(f, Func):
            return self.call_func(f, args, kw, node)
        if isinstance(f, Builtin):
            return f.fn(self, list(args), kw, node)
        if isinstance(f, Class):
            return self.instantiate(f, args, kw, node)
        if isinstance(f, BClass):
            return self.bi.construct(self, f, list(args), kw, node)
        if isinstance(f, PropertyV) and f.kind == 'staticmethod':
            return self.call(f.fn, args, kw, node)
        if isinstance(f, PyObj) and isinstance(f.cls, Class):
            c = self.find_attr(f.cls, '__call__')
            if c is not None:
                return self.call(Bound(f, c), args, kw, node)
        if isinstance(f, Opaque):
            raise Unsupported('calling opaque value')
        raise self.exc(TypeError, 'object is not callable', node)

    def instantiate(self, cls, args, kw, node):
        base_exc = [b for b in cls.mro if isinstance(b, BClass) and issubclass(b.py, BaseException)]
        new = self.find_attr(cls, '__new__')
        if new is not None:
            raise Unsupported('__new__')
        bad = [b for b in cls.mro if isinstance(b, BClass) and b.py not in (object,) and not issubclass(b.py, BaseException)]
        if bad:
            raise Unsupported('subclass of %s' % bad[0].name)
        o = PyObj(self, cls)
        if base_exc:
            o.fields['args'] = tuple(args)
        init = self.find_attr(cls, '__init__')
        if init is not None:
            self.call(Bound(o, init), args, kw, node)
        elif (args or kw) and not base_exc:
            raise self.exc(TypeError, '%s() takes no arguments' % cls.name, node)
        return o

    def call_func(self, f, args, kw, node):
        q = f.module.name + '.' + f.qual
        if q in self.intercepts:
            r = self.intercepts[q](self, f, args, kw, node)
            if r is not NotImplemented:
                return r
        self.functions.add(q)
        if node is not None:
            self.callsites.add((where(node), q))
        if self.depth > MAX_DEPTH:
            if self.repeats([(c, a) for g, c, a in self.frames if g is f], args):
                raise self.exc(RecursionError, 'the call repeats itself', node)
            raise Unsupported('call depth')
        env = Env(f.closure, f.module, f)
        env.selfcls = f.owner
        self.bind_args(f, args, kw, env, node)
        ob = self.observers.get(q)
        if ob:
            ob(self, 'enter', f, env.vars, None)
        self.depth += 1
        self.stack.append(where(node) + '>' + q if node is not None else '>' + q)
        self.frames.append((f, self.clock(), list(args)))
        try:
            if isinstance(f.node, ast.Lambda):
                r = self.eval(f.node.body, env)
            elif is_generator(f.node):
                env.yields = GenRun(self, f, env, node)
                self.gens.append(env.yields)
                r = LazyV(env.yields)
            else:
                r = None
                try:
                    self.exec_block(f.node.body, env)
                except ReturnSig as s:
                    r = s.v
        finally:
            self.depth -= 1
            self.stack.pop()
            self.frames.pop()
        if ob:
            ob(self, 'exit', f, env.vars, r)
        return r

    def bind_args(self, f, args, kw, env, node):
        a = f.node.args
        kw = dict(kw)
        names = [x.arg for x in a.posonlyargs + a.args]
        vars_ = env.vars
        n = len(names)
        args = list(args)
        if any(isinstance(x, Summ) for x in args):
            raise Unsupported('summary in *args')
        for i, nm in enumerate(names):
            if i < len(args):
                if nm in kw:
                    raise self.exc(TypeError, "multiple values for argument '%s'" % nm, node)
                vars_[nm] = args[i]
            elif nm in kw:
                vars_[nm] = kw.pop(nm)
            else:
                di = i - (n - len(f.defaults))
                if di >= 0:
                    vars_[nm] = f.defaults[di]
                else:
                    raise self.exc(TypeError, "%s() missing argument '%s'" % (f.name, nm), node)
        if len(args) > n:
            if a.vararg is None:
                raise self.exc(TypeError, '%s() takes %d positional arguments' % (f.name, n), node)
        if a.vararg is not None:
            vars_[a.vararg.arg] = tuple(args[n:])
        for i, x in enumerate(a.kwonlyargs):
            if x.arg in kw:
                vars_[x.arg] = kw.pop(x.arg)
            elif f.kwdefaults[i] is not None:
                vars_[x.arg] = f.kwdefaults[i][0]
            else:
                raise self.exc(TypeError, 'missing keyword argument', node)
        if a.kwarg is not None:
            d = PyDict(self)
            for k, v in kw.items():
                self.dset(d, k, v, raw=True)
            vars_[a.kwarg.arg] = d
        elif kw:
            raise self.exc(TypeError, '%s() got an unexpected keyword argument %r' % (f.name, list(kw)[0]), node)

    # ---------------------------------------------------------- statements
    def exec_block(self, body, env):
        for s in body:
            self.exec(s, env)

    def exec(self, s, env):
        self.steps += 1
        if self.steps > MAX_STEPS:
            raise Unsupported('step budget exceeded')
        if not self.steps & 63 and DEADLINE[0] and time.time() > DEADLINE[0]:
            raise Unsupported('time budget exceeded')
        m = _XD.get(s.__class__)
        if m is None:
            raise Unsupported('statement %s at %s' % (type(s).__name__, where(s)))
        m(self, s, env)

    def x_Pass(self, s, env):
        pass

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env):
        t = s.target
        op = type(s.op)
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env, t)
            new = self.augop(op, old, self.eval(s.value, env), s)
            self.assign(t, new, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.getattr_(o, t.attr, t)
            new = self.augop(op, old, self.eval(s.value, env), s)
            self.setattr_(o, t.attr, new, s)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            old = self.getitem(o, k, t)
            new = self.augop(op, old, self.eval(s.value, env), s)
            self.setitem(o, k, new, s)
        else:
            raise Unsupported('augassign target')

    def augop(self, op, old, v, node):
        if isinstance(old, PyList) and op is ast.Add:
            self.full(old)
            new = self.summ_items(v, node)
            old._items.extend(new)
            self.wrote(old, ('append',), None, new, node)
            return old
        if isinstance(old, PySet) and not old.frozen:
            nm = {ast.BitOr: 'update', ast.Sub: 'difference_update', ast.BitAnd: 'intersection_update'}.get(op)
            if nm:
                self.call(self.bi.method(self, old, nm), [v], {}, node)
                return old
        if isinstance(old, PyDict) and op is ast.BitOr:
            self.call(self.bi.method(self, old, 'update'), [v], {}, node)
            return old
        return self.binop(op, old, v, node)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if env.globals_ and t.id in env.globals_:
                old = env.glob.env.get(t.id)
                env.glob.env[t.id] = v
                self.wrote(env.glob, ('.', t.id), old, v, t)
            elif env.nonlocals and t.id in env.nonlocals:
                e = env.parent
                while e is not None:
                    if t.id in e.vars:
                        e.vars[t.id] = v
                        self.nwrote += 1
                        return
                    e = e.parent
                raise Unsupported('nonlocal')
            else:
                env.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.eval(t.value, env), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.eval_index(t.slice, env), v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.summ_items(v, t)
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                i = stars[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise self.exc(ValueError, 'not enough values to unpack', t)
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, self._unsumm(x), env)
                self.assign(t.elts[i].value, PyList(self, vals[i:len(vals) - after]), env)
                if after:
                    for e, x in zip(t.elts[i + 1:], vals[-after:]):
                        self.assign(e, self._unsumm(x), env)
                return
            if len(vals) != len(t.elts):
                raise self.exc(ValueError, 'wrong number of values to unpack (expected %d, got %d)' % (
                    len(t.elts), len(vals)), t)
            for e, x in zip(t.elts, vals):
                self.assign(e, self._unsumm(x), env)
        else:
            raise Unsupported('assignment target')

    def _unsumm(self, x):
        if isinstance(x, Summ):
            raise Unsupported('unpacking a summary element')
        return x

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval_index(t.slice, env)
                if isinstance(o, PyDict):
                    self.ddel(o, k, s)
                elif isinstance(o, PyList):
                    self.full(o)
                    if isinstance(k, SliceV):
                        del o._items[self.norm(k.a):self.norm(k.b):self.norm(k.c)]
                    else:
                        k = self.norm(k)
                        if not isinstance(k, int):
                            raise Unsupported('del abstract index')
                        try:
                            del o._items[self.place(o, k)]
                        except IndexError:
                            raise self.exc(IndexError, 'del out of range', s)
                    self.wrote(o, ('del', k), None, None, s)
                else:
                    raise Unsupported('del subscript')
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, PyObj) and t.attr in o.fields:
                    old = o.fields.pop(t.attr)
                    self.wrote(o, ('.', t.attr), old, None, s)
                else:
                    raise self.exc(AttributeError, t.attr, s)

    def x_Return(self, s, env):
        raise ReturnSig(self.eval(s.value, env) if s.value is not None else None)

    def x_Break(self, s, env):
        raise BreakSig()

    def x_Continue(self, s, env):
        raise ContinueSig()

    def x_If(self, s, env):
        if self.truth(self.eval(s.test, env), s.test):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def x_While(self, s, env):
        n = 0
        seen = []
        while self.truth(self.eval(s.test, env), s.test):
            n += 1
            if n > 290:
                seen.append((self.clock(), list(env.vars.values())))
            if n > 300:
                if self.repeats(seen[:-1], seen[-1][1]):
                    raise self.exc(Hang, 'the loop repeats itself', s)
                raise Unsupported('loop bound at %s' % where(s))
            try:
                self.exec_block(s.body, env)
            except BreakSig:
                return
            except ContinueSig:
                continue
        self.exec_block(s.orelse, env)

    def x_For(self, s, env):
        it = self.eval(s.iter, env)
        left = 50000
        for v, m in self.live_iter(it, s.iter):
            left -= 1
            if not left:
                raise Unsupported('loop bound at %s' % where(s))
            if m is None:
                self.assign(s.target, v, env)
                try:
                    self.exec_block(s.body, env)
                except BreakSig:
                    return
                except ContinueSig:
                    pass
            else:
                try:
                    self.summary_iter(lambda: (self.assign(s.target, v, env), self.exec_block(s.body, env)),
                                      m, env, self.target_names(s.target))
                except BreakSig:
                    return
        self.exec_block(s.orelse, env)

    def target_names(self, t):
        return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}

    def summary_iter(self, body, m, env, targets):
        """Run `body` once for a summary element of multiplicity m."""
        snap_env = dict(env.vars)
        snap = self.snapshot()
        nheap = len(self.heap)
        nw = len(self.writes)
        self.mults.append(m)
        try:
            try:
                body()
            except ContinueSig:
                pass
        finally:
            self.mults.pop()
        for k, new in list(env.vars.items()):
            if k in targets or k not in snap_env:
                continue
            old = snap_env[k]
            if old is new:
                continue
            if isinstance(old, Leaked):
                if self._summary_value(new):
                    env.vars[k] = Leaked(new)
                continue
            if self.is_num(new) and self.is_num(old) and not isinstance(new, (bool, Inf, NaN)) \
                    and not isinstance(old, (bool, Inf, NaN)):
                env.vars[k] = self.scaled(old, new, m)
            elif self._summary_value(new):
                # one of the summarised elements was singled out; if it is
                # read later the path is dropped: the explicit elements are
                # generic and cover this case
                env.vars[k] = Leaked(new)
        for o, st in snap:
            if o.summ is not None:
                continue
            self.scale_heap(o, st, m)

    def _summary_value(self, v):
        if isinstance(v, Heap):
            return v.summ is not None
        if isinstance(v, tuple):
            return any(self._summary_value(x) for x in v)
        if isinstance(v, (str, Num)):
            return self.key_mult(v) is not None
        return False

    def scaled(self, old, new, m):
        d = N.add(self.num(new), self.num(old), -1)
        if d.const and d.c == 0:
            return new
        return self.norm(N.add(self.num(old), N.mul(m, d)))

    def snapshot(self):
        out = []
        for o in self.heap:
            if o.summ is not None:
                continue
            if isinstance(o, PyObj):
                st = {k: v for k, v in o.fields.items() if isinstance(v, (Num, int)) and not isinstance(v, bool)}
                if st:
                    out.append((o, st))
            elif isinstance(o, PyDict):
                st = {h: kv[1] for h, kv in o.d.items() if isinstance(kv[1], (Num, int))
                      and not isinstance(kv[1], bool) and self.key_mult(kv[0]) is None}
                if st:
                    out.append((o, st))
        return out

    def scale_heap(self, o, st, m):
        if isinstance(o, PyObj):
            for k, old in st.items():
                new = o.fields.get(k)
                if new is not old and isinstance(new, (Num, int)) and not isinstance(new, bool):
                    o.fields[k] = self.scaled(old, new, m)
        else:
            for h, old in st.items():
                if h in o.d:
                    new = o.d[h][1]
                    if new is not old and isinstance(new, (Num, int)) and not isinstance(new, bool):
                        o.d[h][1] = self.scaled(old, new, m)

    def x_FunctionDef(self, s, env):
        f = self.make_func(s, env, s.name)
        for d in reversed(s.decorator_list):
            f = self.decorate(d, f, env)
        self.assign(ast.copy_location(ast.Name(id=s.name, ctx=ast.Store()), s), f, env)

    def decorate(self, d, f, env):
        if isinstance(d, ast.Name) and d.id in ('property', 'staticmethod', 'classmethod') and \
                d.id not in env.vars:
            return PropertyV(f, d.id)
        if isinstance(d, ast.Attribute) and d.attr == 'setter':
            p = self.eval(d.value, env)
            p.setter = f
            return p
        return self.call(self.eval(d, env), [f], {}, d)

    def make_func(self, node, env, name):
        a = node.args
        defaults = [self.eval(x, env) for x in a.defaults]
        kwd = [None if x is None else (self.eval(x, env),) for x in a.kw_defaults]
        clo = env if (env.fn is not None or env.parent is not None) else None
        if env.fn is None and env.selfcls == 'class':
            clo = env.parent
        return Func(node, env.glob, clo, defaults, kwd, name, None)

    def x_ClassDef(self, s, env):
        bases = [self.eval(b, env) for b in s.bases]
        bases = [b for b in bases if not (isinstance(b, BClass) and b.py is object)]
        e = Env(env if env.fn is not None else None, env.glob)
        e.selfcls = 'class'
        self.exec_block(s.body, e)
        c = Class(s.name, bases, e.vars, env.glob)
        for v in e.vars.values():
            if isinstance(v, Func) and v.owner is None:
                v.owner = c
            elif isinstance(v, PropertyV) and isinstance(v.fn, Func):
                v.fn.owner = c
        r = c
        for d in reversed(s.decorator_list):
            r = self.call(self.eval(d, env), [r], {}, d)
        self.assign(ast.copy_location(ast.Name(id=s.name, ctx=ast.Store()), s), r, env)

    def x_Import(self, s, env):
        for a in s.names:
            nm = a.name
            m = self.import_module(nm if a.asname else nm)
            if a.asname is None:
                top = nm.split('.')[0]
                env.vars[top] = self.import_module(top)
            else:
                env.vars[a.asname] = m

    def import_module(self, name):
        m = self.module(name)
        if m is not None:
            return m
        if name in self.modules:
            return self.modules[name]
        self.modules[name] = ModuleV(name, {})
        return self.modules[name]

    def x_ImportFrom(self, s, env):
        if s.module == '__future__':
            return
        name = s.module or ''
        if s.level:
            base = env.glob.name.split('.')
            src = self.prog.find(env.glob.name)
            if src is not None and not src.path.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            name = '.'.join(base + ([name] if name else []))
        m = self.import_module(name)
        for a in s.names:
            if a.name == '*':
                for k, v in m.env.items():
                    if not k.startswith('_'):
                        env.vars[k] = v
                continue
            if a.name in m.env:
                v = m.env[a.name]
            else:
                v = self.module(name + '.' + a.name)
                if v is None:
                    v = self.bi.external(self, name, a.name)
                if v is None:
                    if self.prog.find(name) is not None:
                        raise self.exc(ImportError, 'cannot import %s' % a.name, s)
                    v = self.bi.unknown_external(self, name, a.name)
            env.vars[a.asname or a.name] = v

    def x_Global(self, s, env):
        env.globals_ = (env.globals_ or set()) | set(s.names)

    def x_Nonlocal(self, s, env):
        env.nonlocals = (env.nonlocals or set()) | set(s.names)

    def x_Raise(self, s, env):
        if s.exc is None:
            if self.excinfo:
                raise PyRaise(self.excinfo[-1])
            raise self.exc(RuntimeError, 'No active exception', s)
        v = self.eval(s.exc, env)
        if isinstance(v, (Class, BClass)):
            v = self.call(v, [], {}, s)
        if isinstance(v, PyObj):
            v.fields['__where__'] = where(s)
        raise PyRaise(v)

    def x_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except PyRaise as p:
                for h in s.handlers:
                    if h.type is None or self.exc_match(p.exc, self.eval(h.type, env)):
                        if h.name:
                            env.vars[h.name] = p.exc
                        self.excinfo.append(p.exc)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.excinfo.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        except (PyRaise, ReturnSig, BreakSig, ContinueSig):
            self.exec_block(s.finalbody, env)
            raise
        self.exec_block(s.finalbody, env)

    def exc_match(self, e, cls):
        return self.isinstance_(e, cls)

    def x_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env), s.test):
            raise self.exc(AssertionError, '', s)

    def x_With(self, s, env, k=0):
        if k == len(s.items):
            self.exec_block(s.body, env)
            return
        item = s.items[k]
        v = self.eval(item.context_expr, env)
        out = None
        if isinstance(v, PyObj) and isinstance(v.cls, Class):
            ent = self.find_attr(v.cls, '__enter__')
            out = self.find_attr(v.cls, '__exit__')
            if ent is None or out is None:
                raise self.exc(AttributeError, '__enter__', s)
            r = self.call(Bound(v, ent), [], {}, s)
        else:
            r = v
        if item.optional_vars is not None and out is None:
            self.assign(item.optional_vars, r, env)
        if out is None:
            self.x_With(s, env, k + 1)
            return
        try:
            if item.optional_vars is not None:
                self.assign(item.optional_vars, r, env)
            self.x_With(s, env, k + 1)
        except PyRaise as p:
            self.excinfo.append(p.exc)
            try:
                sup = self.truth(self.call(Bound(v, out), [p.exc.cls, p.exc, None], {}, s))
            finally:
                self.excinfo.pop()
            if not sup:
                raise
        except (ReturnSig, BreakSig, ContinueSig):
            self.call(Bound(v, out), [None, None, None], {}, s)
            raise
        else:
            self.call(Bound(v, out), [None, None, None], {}, s)

    # ---------------------------------------------------------- expressions
    def eval(self, e, env):
        self.steps += 1
        return _ED.get(e.__class__, Interp.e_unsupported)(self, e, env)

    def e_unsupported(self, e, env):
        raise Unsupported('expression %s at %s' % (type(e).__name__, where(e)))

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return N.const(Fraction(str(v)) if v == v and v not in (INF, -INF) else 0, 'float')
        if isinstance(v, (bytes, complex)) or v is Ellipsis:
            raise Unsupported('constant %r' % (v,))
        return v

    def e_Name(self, e, env):
        return self.lookup(e.id, env, e)

    def lookup(self, name, env, node=None):
        x = env
        while x is not None:
            if name in x.vars and not (x.globals_ and name in x.globals_):
                v = x.vars[name]
                if v.__class__ is Leaked:
                    raise Prune()
                if v.__class__ is Poison:
                    raise Unsupported(v.why)
                return v
            x = x.parent
        g = env.glob.env
        if name in g:
            if g[name].__class__ is Poison:
                raise Unsupported(g[name].why)
            return g[name]
        if name in self.builtins:
            return self.builtins[name]
        if name == '__class__' and env.selfcls:
            return env.selfcls
        if hasattr(builtins, name):
            raise Unsupported('builtin %s' % name)
        raise self.exc(NameError, "name '%s' is not defined" % name, node)

    def e_Attribute(self, e, env):
        return self.getattr_(self.eval(e.value, env), e.attr, e)

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            return SliceV(self.eval(s.lower, env) if s.lower else None,
                          self.eval(s.upper, env) if s.upper else None,
                          self.eval(s.step, env) if s.step else None)
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in s.elts)
        return self.eval(s, env)

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        return self.getitem(o, self.eval_index(e.slice, env), e)

    def e_Starred(self, e, env):
        raise Unsupported('starred')

    def seq(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.summ_items(self.eval(x.value, env), x))
            else:
                out.append(self.eval(x, env))
        return out

    def e_Tuple(self, e, env):
        return tuple(self.seq(e.elts, env))

    def e_List(self, e, env):
        return PyList(self, self.seq(e.elts, env))

    def e_Set(self, e, env):
        s = PySet(self)
        for v in self.seq(e.elts, env):
            s.d.setdefault(self.hkey(v, e), v)
        return s

    def e_Dict(self, e, env):
        d = PyDict(self)
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.eval(v, env)
                for kk, _ in self.iterate(src, e):
                    self.dset(d, kk, self.getitem(src, kk, e), raw=True)
            else:
                kk = self.eval(k, env)
                self.dset(d, kk, self.eval(v, env), e, raw=True)
        return d

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(type(e.op), a, b, e)

    def e_UnaryOp(self, e, env):
        return self.unary(type(e.op), self.eval(e.operand, env), e)

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        v = None
        for x in e.values[:-1]:
            v = self.eval(x, env)
            if self.truth(v, x) != is_and:
                return v
        return self.eval(e.values[-1], env)

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env), e.test) else e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        x = env
        while x.fn == 'comp' and x.parent is not None:
            x = x.parent
        self.assign(e.target, v, x)
        return v

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, env)
            res = self.compare(type(op), left, right, e)
            if len(e.ops) > 1:
                if not self.truth(res):
                    return res
            left = right
        return res

    def compare(self, op, a, b, node):
        if op is ast.Is or op is ast.IsNot:
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                r = a is b
            elif isinstance(a, Heap) or isinstance(b, Heap) or isinstance(a, str) and isinstance(b, str):
                r = a is b
            elif isinstance(a, (Bound,)) and isinstance(b, Bound):
                r = a.self is b.self and a.fn is b.fn
            elif isinstance(a, (Class, BClass, Func, Builtin)) or isinstance(b, (Class, BClass, Func, Builtin)):
                r = a is b
            else:
                r = a is b or (type(a) is type(b) and self.equal(a, b, node))
            return r if op is ast.Is else not r
        if op is ast.Eq:
            return self.equal(a, b, node)
        if op is ast.NotEq:
            return not self.equal(a, b, node)
        if op is ast.In:
            return self.contains(b, a, node)
        if op is ast.NotIn:
            return not self.contains(b, a, node)
        o = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[op]
        return self.less(a, b, node, o)

    def e_Lambda(self, e, env):
        return self.make_func(e, env, '<lambda>')

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            cls = None
            x = env
            while x is not None and cls is None:
                cls = x.selfcls if isinstance(x.selfcls, Class) else None
                if cls is None:
                    x = x.parent
            if cls is None:
                raise Unsupported('super()')
            first = x.fn.node.args.args[0].arg
            return SuperV(cls, x.vars[first])
        f = self.eval(e.func, env)
        args = self.seq(e.args, env)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, env)
                for kk, _ in self.iterate(d, e):
                    kw[kk] = self.getitem(d, kk)
            else:
                kw[k.arg] = self.eval(k.value, env)
        return self.call(f, args, kw, e)

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                spec = ''
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec, env)
                parts.extend(self.fmt_value(x, 'r' if v.conversion == 114 else '', spec))
        return self.mkstr(parts)

    # comprehensions
    def comp(self, gens, env, emit):
        e2 = Env(env, env.glob, 'comp')
        e2.selfcls = None

        def rec(i):
            if i == len(gens):
                emit(e2)
                return
            g = gens[i]
            it = self.eval(g.iter, env if i == 0 else e2)
            for v, m in self.live_iter(it, g.iter):
                def body():
                    self.assign(g.target, v, e2)
                    for c in g.ifs:
                        if not self.truth(self.eval(c, e2), c):
                            return
                    rec(i + 1)
                if m is None:
                    body()
                else:
                    self.mults.append(m)
                    try:
                        body()
                    finally:
                        self.mults.pop()
        rec(0)

    def wrap(self, v, base):
        """Wrap a produced element by the multiplicities entered since base."""
        ms = self.mults[base:]
        if not ms:
            return v
        m = ms[0]
        for x in ms[1:]:
            m = N.mul(m, x)
        return Summ(m, v)

    def e_ListComp(self, e, env):
        out = []
        base = len(self.mults)
        self.comp(e.generators, env, lambda e2: out.append(self.wrap(self.eval(e.elt, e2), base)))
        return PyList(self, out)

    def e_GeneratorExp(self, e, env):
        first = self.eval(e.generators[0].iter, env)
        if not isinstance(first, (PyList, PyDict, PySet, DictView, IterV, tuple, str)):
            first = IterV(self.iterate(first, e))
        return LazyV(self.genexp(e, env, first))

    def genexp(self, e, env, first):
        e2 = Env(env, env.glob, 'comp')
        e2.selfcls = None
        gens = e.generators

        def rec(i):
            g = gens[i]
            it = first if i == 0 else self.eval(g.iter, e2)
            for v, m in self.live_iter(it, g.iter):
                if m is None:
                    for x in inner(i, v):
                        yield x
                else:
                    self.mults.append(m)
                    try:
                        out = [(x, m if n is None else N.mul(m, n)) for x, n in inner(i, v)]
                    finally:
                        self.mults.pop()
                    for x in out:
                        yield x

        def inner(i, v):
            g = gens[i]
            self.assign(g.target, v, e2)
            for c in g.ifs:
                if not self.truth(self.eval(c, e2), c):
                    return
            if i + 1 < len(gens):
                for x in rec(i + 1):
                    yield x
            else:
                yield self.eval(e.elt, e2), None
        return rec(0)

    def e_SetComp(self, e, env):
        s = PySet(self)

        def emit(e2):
            v = self.eval(e.elt, e2)
            s.d.setdefault(self.hkey(v, e), v)
        self.comp(e.generators, env, emit)
        return s

    def e_DictComp(self, e, env):
        d = PyDict(self)

        def emit(e2):
            k = self.eval(e.key, e2)
            self.dset(d, k, self.eval(e.value, e2), e, raw=True)
        self.comp(e.generators, env, emit)
        return d

    def e_Yield(self, e, env):
        v = self.eval(e.value, env) if e.value is not None else None
        self.gen_of(env).give(v, None)
        return None

    def e_YieldFrom(self, e, env):
        g = self.gen_of(env)
        it = self.eval(e.value, env)
        for v, m in self.live_iter(it, e):
            g.give(v, m)
        if isinstance(it, LazyV) and isinstance(it._it, GenRun):
            return it._it.result
        return None

    def close_gens(self):
        for g in self.gens:
            g.kill()
        self.gens = []

    def gen_of(self, env):
        while env is not None and env.yields is None:
            env = env.parent
        return env.yields


class GenKill(BaseException):
    """Ends the thread of a generator nobody asks any more."""


class GenRun(object):
    """The body of a generator, run in a thread of its own that only ever
    runs while its consumer waits for the next element."""

    def __init__(self, I, f, env, node):
        self.I, self.f, self.env, self.node = I, f, env, node
        self.thread = None
        self.done = self.running = False
        self.result = self.error = None
        self.buf = []
        self.own = ([], [], 1)
        self.go, self.back = _thread.allocate_lock(), _thread.allocate_lock()
        self.go.acquire()
        self.back.acquire()
        self.dead = False
        self.ctx = decimal.getcontext()

    def __iter__(self):
        return self

    def __next__(self):
        I = self.I
        if self.buf:
            return self.buf.pop(0)
        if self.done:
            raise StopIteration
        if self.running:
            raise I.exc(ValueError, 'generator already executing', self.node)
        saved = I.depth, I.stack, I.frames, I.excinfo
        st, fr, d = self.own
        self.base = len(I.stack), len(I.frames), I.depth, len(I.mults)
        if self.thread is None:
            st = [(where(self.node) if self.node is not None else '') + '>' + self.f.module.name + '.' + self.f.qual]
            fr = [(self.f, I.clock(), [])]
        I.stack, I.frames, I.depth, I.excinfo = I.stack + st, I.frames + fr, I.depth + d, list(I.excinfo)
        self.running = True
        if self.thread is None:
            old = threading.stack_size(256 << 20)
            self.thread = threading.Thread(target=self.body, daemon=True)
            self.thread.start()
            threading.stack_size(old)
        else:
            self.go.release()
        self.back.acquire()
        self.running = False
        I.depth, I.stack, I.frames, I.excinfo = saved
        if self.error is not None:
            e, self.error = self.error, None
            raise e
        if self.buf:
            return self.buf.pop(0)
        raise StopIteration

    def body(self):
        decimal.setcontext(self.ctx)
        try:
            self.I.exec_block(self.f.node.body, self.env)
        except ReturnSig as s:
            self.result = s.v
        except GenKill:
            pass
        except PyRaise as p:
            self.error = p
            if self.I.isinstance_(p.exc, self.I.builtins['StopIteration']):
                self.error = self.I.exc(RuntimeError, 'generator raised StopIteration', self.node)
        except BaseException as e:
            self.error = e
        self.done = True
        self.back.release()

    def give(self, v, m):
        """In the generator: hand one element to the consumer."""
        I = self.I
        own = I.mults[self.base[3]:]
        for x in own:
            m = x if m is None else N.mul(m, x)
        self.buf.append((v, m))
        if own:
            return              # the elements of a summary are handed over together
        self.own = I.stack[self.base[0]:], I.frames[self.base[1]:], I.depth - self.base[2]
        self.back.release()
        self.go.acquire()
        if self.dead:
            raise GenKill()

    def kill(self):
        if self.thread is not None and not self.done:
            self.dead = True
            self.go.release()
            self.back.acquire()


_XD = {getattr(ast, k[2:]): v for k, v in vars(Interp).items() if k.startswith('x_')}
_ED = {getattr(ast, k[2:]): v for k, v in vars(Interp).items() if k.startswith('e_') and k != 'e_unsupported'}


# ------------------------------------------------------------------ explore
class PathResult(object):
    def __init__(self, I, out, trace):
        self.I = I
        self.out = out
        self.trace = trace


DEADLINE = [None]


def explore(prog, run, max_paths=20000, deadline=None, stop=None):
    """Enumerate all abstract paths of run(I).  Yields PathResult with out =
    ('ok', value) | ('raise', exc) | ('undecided', reason) | ('pruned', None)."""
    stack = [(0, 0, [])]
    n = seq = 0
    while stack:
        # short prefixes first: paths that go round a loop once more come last
        prefix = heapq.heappop(stack)[2]
        I = Interp(prog, prefix)
        try:
            out = ('ok', run(I))
        except PyRaise as p:
            out = ('raise', p.exc)
        except Unsupported as u:
            out = ('undecided', str(u))
        except Prune:
            out = ('pruned', None)
        except RecursionError:
            out = ('undecided', 'recursion')
        I.close_gens()
        tr = I.trace
        for i in range(len(tr) - 1, len(prefix) - 1, -1):
            for alt in range(tr[i][1] - 1, 0, -1):
                seq += 1
                heapq.heappush(stack, (i + 1, -seq, [t[0] for t in tr[:i]] + [alt]))
        n += 1
        yield PathResult(I, out, tr)
        if n >= max_paths or (deadline and time.time() > deadline) or (
                DEADLINE[0] and time.time() > DEADLINE[0]) or (stop and stop()):
            if stack:
                r = PathResult(I, ('undecided', 'path budget exhausted with %d branches open' % len(stack)), tr)
                yield r
            return


def refine(prog, run, r):
    """Re-interpret a path at a point where the equalities it assumes hold.

    The generic point of the value numbering lies outside the subset of states
    a path with an assumed equality stands for.  Solve for one atom per
    equality (the difference is affine in it) and interpret the same path
    there.  None if that does not succeed."""
    old = dict(N.OV)
    try:
        q = _refine(prog, run, r)
        if q is not None:
            q.ov = dict(N.OV)
        return q
    finally:
        N.OV.clear()
        N.OV.update(old)


def _rerun(prog, run, prefix):
    I = Interp(prog, list(prefix))
    try:
        out = ('ok', run(I))
    except PyRaise as p:
        out = ('raise', p.exc)
    except (Unsupported, RecursionError) as u:
        out = ('undecided', str(u))
    except Prune:
        out = ('pruned', None)
    I.close_gens()
    return I, out


def _refine(prog, run, r):
    trace = r.trace
    I, out = r.I, r.out
    done = set()
    for rnd in range(4):
        if not I.eqlist:
            I.exact = True
            return PathResult(I, out, trace)
        key, d = I.eqlist[0]
        idx = set(I.keyidx[key])
        f0 = d.v
        names = [a for a in d.lin if a[0] != '#' and '(' not in a and a not in done]
        names += [a for a in I_atoms(I) if a not in names and a not in done]
        ok = False
        for a in names[:60]:
            p0 = N.OV.get(a)
            if p0 is None:
                p0 = N.POINT.get(a)
            if p0 is None:
                continue
            p1 = p0 * N.Decimal('1.0625') + N.Decimal('0.03125')
            had = N.OV.get(a)
            N.OV[a] = p1
            J, o = _rerun(prog, run, [t[0] for t in trace])
            f1 = None
            for (k2, d2) in J.eqlist:
                if J.keyidx[k2] == I.keyidx[key]:
                    f1 = d2.v
                    break
            if f1 is not None and f1 != f0:
                N.OV[a] = p0 - f0 * (p1 - p0) / (f1 - f0)
                q = N.OV[a].quantize(N.Decimal('1e-45')).normalize()
                if abs(q - N.OV[a]) < N.Decimal('1e-45'):
                    N.OV[a] = q
                tr2 = [t for i, t in enumerate(trace) if i not in idx]
                J, o = _rerun(prog, run, [t[0] for t in tr2])
                if [t[1:] for t in J.trace] == [t[1:] for t in tr2] and o[0] == out[0]:
                    I, out, trace = J, o, tr2
                    done.add(a)
                    ok = True
                    break
            if had is None:
                N.OV.pop(a, None)
            else:
                N.OV[a] = had
        if not ok:
            return None
    if I.eqlist:
        return None
    I.exact = True
    return PathResult(I, out, trace)


def I_atoms(I):
    return [a for a in N.POINT if a in N.B]
