"""Abstract values of the interpreter (sa.interp)."""
from . import num as N
from .num import Num


class Unsupported(Exception):
    """A construct outside the analysed fragment: the path is undecided."""


class Prune(Exception):
    """The path is covered by another one (or infeasible)."""


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class Heap(object):
    __slots__ = ('summ', 'region', 'oid', 'tag', 'meta')
    _n = 0

    def _init(self, I):
        I.heap.append(self)
        self.oid = len(I.heap)
        self.summ = I.cur_mult()
        self.region = I.region
        self.tag = None
        self.meta = None


class PyObj(Heap):
    __slots__ = ('cls', 'fields')

    def __init__(self, I, cls):
        self._init(I)
        self.cls = cls
        self.fields = {}

    def __repr__(self):
        return '<%s#%s>' % (getattr(self.cls, 'name', self.cls), self.tag or self.oid)


class PyList(Heap):
    __slots__ = ('_items', 'pending')

    def __init__(self, I, items=()):
        self._init(I)
        self._items = list(items)
        self.pending = None

    def __repr__(self):
        return 'L%r' % (self._items,)


class SortPend(list):
    rev = False


class PyDict(Heap):
    __slots__ = ('d', 'default', 'owner')

    def __init__(self, I):
        self._init(I)
        self.d = {}          # hkey -> [key, value]
        self.default = None
        self.owner = None    # the object whose __dict__ this is

    def __repr__(self):
        return 'D{%s}' % ', '.join('%r: %r' % tuple(kv) for kv in self.d.values())


class PySet(Heap):
    __slots__ = ('d', 'frozen')

    def __init__(self, I, frozen=False):
        self._init(I)
        self.d = {}
        self.frozen = frozen

    def __repr__(self):
        return 'S{%s}' % ', '.join(map(repr, self.d.values()))


class Summ(object):
    """An element standing for `m` (abstractly many) like elements."""
    __slots__ = ('m', 'v')

    def __init__(self, m, v):
        self.m = m
        self.v = v

    def __repr__(self):
        return 'Summ(%r)' % (self.v,)


class SStr(object):
    """A string known up to its abstract parts."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    def __repr__(self):
        return 'SStr%r' % (self.parts,)

    def __eq__(self, o):
        return isinstance(o, SStr) and o.parts == self.parts

    def __hash__(self):
        return hash(self.parts)


class NaN(object):
    def __repr__(self):
        return 'nan'


class Inf(object):
    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return 'inf' if self.s > 0 else '-inf'


class Func(object):
    def __init__(self, node, module, closure, defaults, kwdefaults, name, owner=None):
        self.node = node
        self.module = module
        self.closure = closure
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = name
        self.owner = owner
        self.is_gen = None
        self.locals = None
        self.attrs = {}

    @property
    def qual(self):
        return (self.owner.name + '.' if self.owner else '') + self.name

    def __repr__(self):
        return '<fn %s>' % self.qual


class Bound(object):
    __slots__ = ('self', 'fn')

    def __init__(self, s, fn):
        self.self = s
        self.fn = fn

    def __repr__(self):
        return '<bound %r of %r>' % (self.fn, self.self)


class Class(object):
    def __init__(self, name, bases, ns, module):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.module = module
        self.mro = self._mro()

    def _mro(self):
        seqs = [list(b.mro) if isinstance(b, Class) else [b] for b in self.bases] + [list(self.bases)]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            out.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]
        return out

    def __repr__(self):
        return '<class %s>' % self.name


class BClass(object):
    """A builtin class."""
    _c = {}

    def __new__(cls, py):
        if py in cls._c:
            return cls._c[py]
        o = object.__new__(cls)
        o.py = py
        o.name = py.__name__
        o.mro = [o]
        cls._c[py] = o
        return o

    def __repr__(self):
        return '<builtin %s>' % self.name


class Builtin(object):
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return '<builtin fn %s>' % self.name


class ModuleV(object):
    def __init__(self, name, env):
        self.name = name
        self.env = env

    def __repr__(self):
        return '<module %s>' % self.name


class SuperV(object):
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class PropertyV(object):
    def __init__(self, fn, kind):
        self.fn = fn
        self.kind = kind


class IterV(object):
    """A one-shot iterator: a list of (value, mult) still to come."""

    def __init__(self, pairs, src=None):
        self.pairs = list(pairs)
        self.src = src


class LazyV(IterV):
    """An iterator whose elements are computed when asked for: a python
    iterator over (value, mult) pairs."""

    def __init__(self, it):
        self._it = it
        self._buf = []
        self.src = None

    def step(self):
        if self._buf:
            return self._buf.pop(0)
        return next(self._it, None)

    @property
    def pairs(self):
        for p in self._it:
            self._buf.append(p)
            if len(self._buf) > 50000:
                raise Unsupported('generator bound')
        return self._buf

    @pairs.setter
    def pairs(self, l):
        self._buf = list(l)


class RangeV(object):
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class SliceV(object):
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class DictView(object):
    def __init__(self, d, kind):
        self.d = d
        self.kind = kind


class IdxSumm(object):
    """The index of a summary element."""

    def __init__(self, m):
        self.m = m


class Opaque(object):
    """An unconstrained user value identified by name (hashable)."""

    def __init__(self, name, kind='object'):
        self.name = name
        self.kind = kind

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.name)


class Lazy(object):
    def __init__(self, fn):
        self.fn = fn


class Poison(object):
    """A name whose definition the analysis does not understand."""

    def __init__(self, why):
        self.why = why


class NTuple(tuple):
    """A named tuple."""
    names = ()


class Leaked(object):
    """A summarised element left in a variable after its loop."""

    def __init__(self, v):
        self.v = v
