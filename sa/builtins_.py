"""Models of the builtins and of the external modules the package uses."""
import ast
import json
import math
import posixpath
import numbers
import collections.abc
from fractions import Fraction
from decimal import Decimal

from . import num as N
from .num import Num, INF
from .values import *


def lst_put(I, lst, x):
    m = I.cur_mult()
    if m is not None and lst.summ is None and not isinstance(x, Summ):
        return Summ(m, x)
    return x


def make_builtins(I):
    b = {}

    def reg(name):
        def d(f):
            b[name] = Builtin(name, f)
            return f
        return d

    for t in (str, int, float, bool, list, dict, tuple, set, frozenset, object, type,
              BaseException, Exception, ValueError, TypeError, KeyError, IndexError, AttributeError,
              NameError, ZeroDivisionError, ArithmeticError, LookupError, RuntimeError, NotImplementedError,
              StopIteration, AssertionError, ImportError, OSError, IOError, OverflowError, RecursionError,
              UnicodeError, FileNotFoundError, UserWarning, Warning, DeprecationWarning):
        b[t.__name__] = BClass(t)
    b['IOError'] = BClass(OSError)
    b['NotImplemented'] = Opaque('NotImplemented')
    b['__debug__'] = True

    @reg('len')
    def _len(I, a, k, n):
        return I.length(a[0], n)

    @reg('range')
    def _range(I, a, k, n):
        a = [I.norm(x) for x in a]
        for x in a:
            if not isinstance(x, (int, Num)):
                raise I.exc(TypeError, 'range() needs integers', n)
            if isinstance(x, Num) and x.t != 'int':
                raise I.exc(TypeError, "'float' object cannot be interpreted as an integer", n)
        if len(a) == 1:
            return RangeV(0, a[0], 1)
        return RangeV(a[0], a[1], a[2] if len(a) > 2 else 1)

    @reg('isinstance')
    def _isinstance(I, a, k, n):
        return I.isinstance_(a[0], a[1])

    @reg('issubclass')
    def _issub(I, a, k, n):
        c, d = a
        ds = d if isinstance(d, tuple) else (d,)
        for x in ds:
            if isinstance(c, Class) and x in c.mro:
                return True
            if isinstance(x, BClass):
                for y in c.mro:
                    if isinstance(y, BClass) and issubclass(y.py, x.py):
                        return True
                if x.py is object:
                    return True
        return False

    @reg('hash')
    def _hash(I, a, k, n):
        h = I.hkey(a[0], n)
        return N.atom('hash%r' % (h,), t='int')

    @reg('id')
    def _id(I, a, k, n):
        return identity(a[0])

    @reg('print')
    def _print(I, a, k, n):
        for x in a:
            I.to_str(x)
        return None

    @reg('abs')
    def _abs(I, a, k, n):
        x = a[0]
        if isinstance(x, int):
            return abs(x)
        if isinstance(x, Inf):
            return Inf(1)
        if not isinstance(x, Num):
            raise I.exc(TypeError, 'bad operand for abs', n)
        if I.decide(x, 0, frozenset('<'), 'abs'):
            return I.norm(N.scale(x, -1))
        return x

    @reg('sum')
    def _sum(I, a, k, n):
        acc = a[1] if len(a) > 1 else k.get('start', 0)
        for x, m in I.iterate(a[0], n):
            if m is not None:
                x = I.norm(N.mul(m, I.num(x)))
            acc = I.binop(ast.Add, acc, x, n)
        return acc

    def extreme(I, a, k, n, sign):
        key = k.get('key')
        if len(a) == 1:
            items = I.summ_items(a[0], n)
            if not items:
                if 'default' in k:
                    return k['default']
                raise I.exc(ValueError, 'arg is an empty sequence', n)
        else:
            items = list(a)
        keys = [I.call(key, [x.v if isinstance(x, Summ) else x], {}, n) if key is not None and key is not False
                else (x.v if isinstance(x, Summ) else x) for x in items]
        I.sorts.append(('max', keys))
        ex = [(kk, x) for kk, x in zip(keys, items) if not isinstance(x, Summ)]
        if not ex:
            x = items[0]
            return x.v if not isinstance(x.v, Num) else I.fresh('max')
        # first maximal element wins; unknown comparisons -> pick
        known = True
        best = ex[0]
        for c in ex[1:]:
            r = I.try_less(best[0], c[0], n) if sign > 0 else I.try_less(c[0], best[0], n)
            if r is None:
                known = False
                break
            if r:
                best = c
        if known and len(ex) == len(items):
            return best[1]
        if all(I.is_num(x) for _, x in ex) and key is None:
            # numeric max: value abstracted by choosing one
            pass
        l = PyList(I, [])
        l.pending = SortPend(ex)
        l.pending.rev = sign > 0
        I._pick(l)
        return l._items[0]

    @reg('max')
    def _max(I, a, k, n):
        return extreme(I, a, k, n, 1)

    @reg('min')
    def _min(I, a, k, n):
        return extreme(I, a, k, n, -1)

    @reg('sorted')
    def _sorted(I, a, k, n):
        items = I.summ_items(a[0], n)
        return do_sort(I, PyList(I, []), items, k, n)

    @reg('reversed')
    def _reversed(I, a, k, n):
        if isinstance(a[0], (PySet,)):
            raise I.exc(TypeError, 'not reversible', n)
        return IterV(list(reversed(I.iterate(a[0], n))))

    @reg('enumerate')
    def _enumerate(I, a, k, n):
        start = a[1] if len(a) > 1 else k.get('start', 0)
        src = source(I, a[0], n)

        def run():
            i = start
            for x, m in src:
                if m is None:
                    yield (i, x), None
                    i = I.binop(ast.Add, i, 1)
                else:
                    # (a summary stands at the end, as for indexing and range)
                    yield (IdxSumm(m), x), m
        return LazyV(run())

    @reg('zip')
    def _zip(I, a, k, n):
        ls = [source(I, x, n) for x in a]
        if not ls:
            return IterV([])

        def run():
            for tup in zip(*ls):
                ms = [m for _, m in tup]
                m = next((x for x in ms if x is not None), None)
                yield tuple(x for x, _ in tup), m
            if k.get('strict'):
                raise Unsupported('zip strict')
        return LazyV(run())

    @reg('map')
    def _map(I, a, k, n):
        ls = [source(I, x, n) for x in a[1:]]

        def run():
            if len(a) == 2:
                for x, m in ls[0]:
                    if m is not None:
                        I.mults.append(m)
                    try:
                        v = I.call(a[0], [x], {}, n)
                    finally:
                        if m is not None:
                            I.mults.pop()
                    yield v, m
                return
            for tup in zip(*ls):
                yield I.call(a[0], [x for x, _ in tup], {}, n), None
        return LazyV(run())

    @reg('filter')
    def _filter(I, a, k, n):
        src = source(I, a[1], n)

        def run():
            for x, m in src:
                if I.truth(x) if a[0] is None else I.truth(I.call(a[0], [x], {}, n)):
                    yield x, m
        return LazyV(run())

    @reg('iter')
    def _iter(I, a, k, n):
        if len(a) > 1:
            def run():
                while True:
                    v = I.call(a[0], [], {}, n)
                    if I.equal(v, a[1], n):
                        return
                    yield v, None
            return LazyV(run())
        if isinstance(a[0], IterV):
            return a[0]
        if isinstance(a[0], (PyList, PyDict, PySet, DictView)):
            return LazyV(I.live_iter(a[0], n))
        if isinstance(a[0], PyObj) and isinstance(a[0].cls, Class):
            f = I.find_attr(a[0].cls, '__iter__')
            if f is not None:
                return I.call(Bound(a[0], f), [], {}, n)
        return IterV(I.iterate(a[0], n))

    @reg('next')
    def _next(I, a, k, n):
        it = a[0]
        if isinstance(it, PyObj) and isinstance(it.cls, Class):
            f = I.find_attr(it.cls, '__next__')
            if f is not None:
                if len(a) == 1:
                    return I.call(Bound(it, f), [], {}, n)
                try:
                    return I.call(Bound(it, f), [], {}, n)
                except PyRaise as p:
                    if I.isinstance_(p.exc, I.builtins['StopIteration']):
                        return a[1]
                    raise
        if not isinstance(it, IterV):
            raise I.exc(TypeError, 'object is not an iterator', n)
        I.nwrote += 1
        if isinstance(it, LazyV):
            p = it.step()
            if p is not None:
                if p[1] is None:
                    return p[0]
                it.pairs = [p] + it.pairs      # (a summary: look at all of them)
        while it.pairs:
            x, m = it.pairs[0]
            if m is not None and len(it.pairs) > 1:
                it.pairs.append(it.pairs.pop(0))   # explicit elements stand first
                if all(p[1] is not None for p in it.pairs):
                    return x
                continue
            it.pairs.pop(0)
            return x
        if len(a) > 1:
            return a[1]
        raise I.exc(StopIteration, '', n)

    @reg('any')
    def _any(I, a, k, n):
        for x, m in I.live_iter(a[0], n):
            if I.truth(x):
                return True
        return False

    @reg('all')
    def _all(I, a, k, n):
        for x, m in I.live_iter(a[0], n):
            if not I.truth(x):
                return False
        return True

    @reg('getattr')
    def _getattr(I, a, k, n):
        try:
            return I.getattr_(a[0], a[1], n)
        except PyRaise as p:
            if len(a) > 2 and I.isinstance_(p.exc, BClass(AttributeError)):
                return a[2]
            raise

    @reg('hasattr')
    def _hasattr(I, a, k, n):
        try:
            I.getattr_(a[0], a[1], n)
            return True
        except PyRaise as p:
            if I.isinstance_(p.exc, BClass(AttributeError)):
                return False
            raise

    @reg('setattr')
    def _setattr(I, a, k, n):
        I.setattr_(a[0], a[1], a[2], n)

    @reg('callable')
    def _callable(I, a, k, n):
        return isinstance(a[0], (Func, Bound, Builtin, Class, BClass))

    @reg('repr')
    def _repr(I, a, k, n):
        if isinstance(a[0], str):
            return repr(a[0])
        return I.to_str(a[0])

    @reg('round')
    def _round(I, a, k, n):
        x = a[0]
        if isinstance(x, int):
            return x
        nd = a[1] if len(a) > 1 else k.get('ndigits')
        if isinstance(x, Num) and N.whole(x) and (nd is None or isinstance(nd, int) and nd >= 0):
            return Num(x.v, x.lin, x.c, x.lo, x.hi, 'int' if nd is None else x.t)
        if isinstance(x, Num) and x.const and (nd is None or isinstance(nd, int)):
            return round(float(x.c)) if nd is None else N.const(round(float(x.c), nd), 'float')
        r = N.func('round%s' % (nd,), I.num(x))
        r.lo, r.hi = I.num(x).lo - 1, I.num(x).hi + 1
        if nd is None:
            r.t = 'int'
        return r

    @reg('open')
    def _open(I, a, k, n):
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        I.events.append(('open', a[0], mode, n))
        o = PyObj(I, BClass(object))
        o.meta = ('file', a[0], mode)
        return o

    @reg('pow')
    def _pow(I, a, k, n):
        return I.binop(ast.Pow, a[0], a[1], n)

    @reg('divmod')
    def _divmod(I, a, k, n):
        return (I.binop(ast.FloorDiv, a[0], a[1], n), I.binop(ast.Mod, a[0], a[1], n))

    @reg('vars')
    def _vars(I, a, k, n):
        return I.getattr_(a[0], '__dict__', n)

    @reg('ord')
    def _ord(I, a, k, n):
        return ord(a[0])

    @reg('super')
    def _super(I, a, k, n):
        return SuperV(a[0], a[1])

    @reg('slice')
    def _slice(I, a, k, n):
        a = list(a)
        if len(a) == 1:
            return SliceV(None, a[0], None)
        return SliceV(a[0], a[1], a[2] if len(a) > 2 else None)

    @reg('property')
    def _property(I, a, k, n):
        return PropertyV(a[0], 'property')

    @reg('staticmethod')
    def _static(I, a, k, n):
        return PropertyV(a[0], 'staticmethod')

    @reg('classmethod')
    def _classm(I, a, k, n):
        return PropertyV(a[0], 'classmethod')

    @reg('__nondet__')
    def _nondet(I, a, k, n):
        return I.choose(a[0], 'nondet')
    return b


def do_sort(I, out, items, k, n):
    key = k.get('key')
    rev = I.truth(k.get('reverse', False))
    keys = []
    for x in items:
        v = x.v if isinstance(x, Summ) else x
        keys.append(v if key is None else I.call(key, [v], {}, n))
    done, pend = I.sort_items(items, keys, rev, n)
    out._items[:] = done
    out.pending = pend or None
    return out


# ------------------------------------------------------------- constructors
def construct(I, c, a, k, n):
    py = c.py
    if issubclass(py, BaseException):
        o = PyObj(I, c)
        o.fields['args'] = tuple(a)
        return o
    if py is object:
        return PyObj(I, c)
    if py is str:
        return I.to_str(a[0]) if a else ''
    if py is bool:
        return I.truth(a[0], n) if a else False
    if py is float:
        if not a:
            return N.const(0, 'float')
        x = a[0]
        if isinstance(x, str):
            s = x.strip().lower()
            if s in ('inf', '+inf', 'infinity'):
                return Inf(1)
            if s in ('-inf', '-infinity'):
                return Inf(-1)
            if s == 'nan':
                return NaN()
            try:
                return N.const(Fraction(s), 'float')
            except ValueError:
                raise I.exc(ValueError, 'could not convert string to float', n)
        if isinstance(x, SStr):
            if len(x.parts) == 1 and isinstance(x.parts[0], tuple) and x.parts[0][0] == 'num':
                return N.func('float', *[])
            if I.choose(2, 'float(str)') == 0:
                return N.func('float' + repr(x.parts))
            raise I.exc(ValueError, 'could not convert string to float', n)
        if isinstance(x, (Inf, NaN)):
            return x
        if isinstance(x, (int, Num)):
            y = I.num(x)
            return Num(y.v, y.lin, y.c, y.lo, y.hi, 'float')
        raise I.exc(TypeError, 'float() argument must be a string or a number', n)
    if py is int:
        if not a:
            return 0
        x = a[0]
        if len(a) > 1 or k:
            b = a[1] if len(a) > 1 else k.get('base')
            if isinstance(x, str) and isinstance(b, int):
                try:
                    return int(x, b)
                except ValueError:
                    raise I.exc(ValueError, 'invalid literal for int()', n)
            raise Unsupported('int with a base')
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if isinstance(x, str):
            try:
                return int(x)
            except ValueError:
                raise I.exc(ValueError, 'invalid literal for int()', n)
        if isinstance(x, Num):
            if x.const:
                return int(x.c)
            if x.t == 'int':
                return x
            if N.whole(x):
                return Num(x.v, x.lin, x.c, x.lo, x.hi, 'int')
            r = N.func('int', x)
            r.t = 'int'
            if x.lo >= 0:
                r.lo = float(math.floor(x.lo))
                if x.hi < INF:
                    r.hi = float(math.floor(x.hi))
                    r.v = Decimal(r.lo) + (r.v + 10) / 20 * Decimal(r.hi - r.lo)
                N.B[list(r.lin)[0]] = (r.lo, r.hi)
            return r
        raise I.exc(TypeError, 'int() argument', n)
    if py is list:
        return PyList(I, I.summ_items(a[0], n) if a else [])
    if py is tuple:
        if not a:
            return ()
        if isinstance(a[0], tuple):
            return a[0]
        items = I.summ_items(a[0], n)
        if any(isinstance(x, Summ) for x in items):
            raise Unsupported('tuple of summarised list')
        return tuple(items)
    if py in (set, frozenset):
        s = PySet(I, py is frozenset)
        if a:
            for x, m in I.iterate(a[0], n):
                s.d.setdefault(I.hkey(x, n), x)
                if m is not None and I.key_mult(x) is None and isinstance(x, (str, Num)):
                    I.summ_keys[x if isinstance(x, str) else x.key()] = m
        return s
    if py is dict:
        d = PyDict(I)
        if a:
            dict_update(I, d, a[0], n, raw=True)
        for kk, v in k.items():
            I.dset(d, kk, v, raw=True)
        return d
    if py is type:
        return I.class_of(a[0])
    raise Unsupported('constructor %s' % c.name)


def dict_update(I, d, src, n, raw=False):
    if isinstance(src, PyDict):
        for kk, _ in list(src.d.values()):
            I.dset(d, kk, I.dget(src, kk), n, raw=raw)
    else:
        for p, m in I.iterate(src, n):
            kv = I.summ_items(p, n)
            if len(kv) != 2:
                raise I.exc(ValueError, 'dictionary update sequence element', n)
            I.dset(d, kv[0], kv[1], n, raw=raw)


# ------------------------------------------------------------------ methods
def method(I, o, name):
    if isinstance(o, BClass):
        if o.py in (dict, list, set, str, object, tuple):
            def unb(I, a, k, n):
                return I.call(I.getattr_(a[0], name, n), a[1:], k, n)
            if o.py is dict and name == 'fromkeys':
                def fk(I, a, k, n):
                    d = PyDict(I)
                    for x, m in I.iterate(a[0], n):
                        I.dset(d, x, a[1] if len(a) > 1 else None, raw=True)
                    return d
                return Builtin('dict.fromkeys', fk)
            if o.py is object and name == '__init__':
                return Builtin('object.__init__', lambda I, a, k, n: None)
            return Builtin(name, unb)
        return None
    t = ('list' if isinstance(o, PyList) else 'dict' if isinstance(o, PyDict) else
         'set' if isinstance(o, PySet) else 'str' if isinstance(o, (str, SStr)) else
         'tuple' if isinstance(o, tuple) else 'num' if isinstance(o, (Num, int)) else
         'file' if isinstance(o, PyObj) and o.meta and o.meta[0] == 'file' else
         'iter' if isinstance(o, IterV) else None)
    if t is None:
        return None
    f = METHODS.get((t, name))
    if f is None:
        if t == 'dict' and name in ('viewkeys', 'iterkeys'):
            return None
        return None
    return Builtin(t + '.' + name, lambda I, a, k, n: f(I, o, a, k, n))


METHODS = {}




def meth(t, name):
    def d(f):
        METHODS[t, name] = f
        return f
    return d


@meth('list', 'append')
def _(I, o, a, k, n):
    I.full(o)
    o._items.append(lst_put(I, o, a[0]))
    I.wrote(o, ('append',), None, a[0], n)


@meth('list', 'extend')
def _(I, o, a, k, n):
    I.full(o)
    new = [lst_put(I, o, x) for x in I.summ_items(a[0], n)]
    o._items.extend(new)
    I.wrote(o, ('extend',), None, new, n)


@meth('list', 'insert')
def _(I, o, a, k, n):
    I.full(o)
    i = I.norm(a[0])
    if not isinstance(i, int):
        raise Unsupported('insert at abstract index')
    o._items.insert(i, lst_put(I, o, a[1]))
    I.wrote(o, ('insert',), None, a[1], n)


@meth('list', 'remove')
def _(I, o, a, k, n):
    I.full(o)
    for i, it in enumerate(o._items):
        x = it.v if isinstance(it, Summ) else it
        if I.equal(x, a[0], n):
            if isinstance(it, Summ) and not (isinstance(a[0], Heap) and a[0].summ is not None):
                I.note('removing one of a summary')
            del o._items[i]
            I.wrote(o, ('remove',), x, None, n)
            return
    raise I.exc(ValueError, 'list.remove(x): x not in list', n)


@meth('list', 'pop')
def _(I, o, a, k, n):
    I.full(o)
    i = I.norm(a[0]) if a else -1
    if not isinstance(i, int):
        raise Unsupported('pop abstract')
    try:
        x = o._items.pop(I.place(o, i))
    except IndexError:
        raise I.exc(IndexError, 'pop from empty list', n)
    I.wrote(o, ('pop',), x, None, n)
    if isinstance(x, Summ):
        raise Unsupported('pop of a summary element')
    return x


@meth('list', 'index')
def _(I, o, a, k, n):
    I.full(o)
    i = 0
    for it in o._items:
        x = it.v if isinstance(it, Summ) else it
        if I.equal(x, a[0], n):
            return IdxSumm(it.m) if isinstance(it, Summ) else i
        if not isinstance(it, Summ):
            i += 1
    raise I.exc(ValueError, 'not in list', n)


@meth('list', 'count')
def _(I, o, a, k, n):
    c = 0
    for x, m in I.iterate(o):
        if I.equal(x, a[0], n):
            c = I.binop(ast.Add, c, 1 if m is None else m)
    return c


@meth('list', 'clear')
def _(I, o, a, k, n):
    old = list(o._items)
    o._items[:] = []
    o.pending = None
    I.wrote(o, ('clear',), old, None, n)


@meth('list', 'reverse')
def _(I, o, a, k, n):
    I.full(o)
    o._items.reverse()
    I.wrote(o, ('reverse',), None, None, n)


@meth('list', 'sort')
def _(I, o, a, k, n):
    I.full(o)
    items = list(o._items)
    do_sort(I, o, items, k, n)
    I.wrote(o, ('sort',), None, None, n)


@meth('list', 'copy')
def _(I, o, a, k, n):
    return PyList(I, I.summ_items(o))


@meth('list', '__contains__')
def _(I, o, a, k, n):
    return I.contains(o, a[0], n)


@meth('list', '__len__')
@meth('dict', '__len__')
@meth('set', '__len__')
def _(I, o, a, k, n):
    return I.length(o)


@meth('dict', '__contains__')
@meth('set', '__contains__')
def _(I, o, a, k, n):
    return I.contains(o, a[0], n)


@meth('dict', '__getitem__')
def _(I, o, a, k, n):
    return I.dget(o, a[0], n)


@meth('dict', '__setitem__')
def _(I, o, a, k, n):
    return I.dset(o, a[0], a[1], n)


@meth('dict', 'keys')
def _(I, o, a, k, n):
    return DictView(o, 'keys')


@meth('dict', 'values')
def _(I, o, a, k, n):
    return DictView(o, 'values')


@meth('dict', 'items')
def _(I, o, a, k, n):
    return DictView(o, 'items')


@meth('dict', 'get')
def _(I, o, a, k, n):
    return I.dget(o, a[0], n, a[1] if len(a) > 1 else k.get('default'))


@meth('dict', 'setdefault')
def _(I, o, a, k, n):
    h = I.hkey(a[0], n)
    if h in o.d:
        return I.dget(o, a[0], n)
    v = a[1] if len(a) > 1 else None
    I.dset(o, a[0], v, n)
    return v


@meth('dict', 'pop')
def _(I, o, a, k, n):
    h = I.hkey(a[0], n)
    if h in o.d:
        I.dget(o, a[0], n)
        return I.ddel(o, a[0], n)
    if len(a) > 1:
        return a[1]
    raise I.exc(KeyError, a[0], n)


@meth('dict', 'popitem')
def _(I, o, a, k, n):
    if not o.d:
        raise I.exc(KeyError, 'popitem', n)
    kk = list(o.d.values())[-1][0]
    v = I.dget(o, kk)
    I.ddel(o, kk, n)
    return (kk, v)


@meth('dict', 'update')
def _(I, o, a, k, n):
    if a:
        dict_update(I, o, a[0], n)
    for kk, v in k.items():
        I.dset(o, kk, v, n)


@meth('dict', 'clear')
def _(I, o, a, k, n):
    if o.owner is not None:
        raise Unsupported('clearing the dictionary of an object')
    had = bool(o.d)
    o.d.clear()
    if had:
        I.wrote(o, ('clear',), None, None, n)


@meth('dict', 'copy')
def _(I, o, a, k, n):
    d = PyDict(I)
    d.default = o.default
    dict_update(I, d, o, n, raw=True)
    return d


@meth('dict', 'most_common')
def _(I, o, a, k, n):
    items = PyList(I, [(x, I.dget(o, x, n)) for x, m in I.iterate(o, n) if m is None])
    if len(items._items) != len(o.d):
        raise Unsupported('most_common of a summary')
    key = Builtin('second', lambda I, b, kk, nn: b[0][1])
    r = do_sort(I, PyList(I, []), items._items, {'key': key, 'reverse': True}, n)
    return r if not a or a[0] is None else I.slice(r, SliceV(None, a[0], None), n)


@meth('set', 'add')
def _(I, o, a, k, n):
    h = I.hkey(a[0], n)
    if h not in o.d:
        o.d[h] = a[0]
        I.wrote(o, ('add',), None, a[0], n)


@meth('set', 'remove')
def _(I, o, a, k, n):
    h = I.hkey(a[0], n)
    if h not in o.d:
        raise I.exc(KeyError, a[0], n)
    del o.d[h]
    I.wrote(o, ('remove',), a[0], None, n)


@meth('set', 'discard')
def _(I, o, a, k, n):
    h = I.hkey(a[0], n)
    if h in o.d:
        del o.d[h]
        I.wrote(o, ('remove',), a[0], None, n)


@meth('set', 'pop')
def _(I, o, a, k, n):
    if not o.d:
        raise I.exc(KeyError, 'pop from an empty set', n)
    hs = list(o.d)
    h = hs[I.choose(len(hs), 'set.pop')]
    v = o.d.pop(h)
    I.wrote(o, ('remove',), v, None, n)
    return v


@meth('set', 'copy')
def _(I, o, a, k, n):
    s = PySet(I, o.frozen)
    s.d.update(o.d)
    return s


@meth('set', 'update')
def _(I, o, a, k, n):
    for src in a:
        for x, m in I.iterate(src, n):
            h = I.hkey(x, n)
            if h not in o.d:
                o.d[h] = x
                I.wrote(o, ('add',), None, x, n)


@meth('set', 'clear')
def _(I, o, a, k, n):
    if o.d:
        o.d.clear()
        I.wrote(o, ('clear',), None, None, n)


@meth('set', 'union')
def _(I, o, a, k, n):
    s = PySet(I, o.frozen)
    s.d.update(o.d)
    for src in a:
        for x, m in I.iterate(src, n):
            s.d.setdefault(I.hkey(x, n), x)
    return s


def _keys(I, src, n):
    return {I.hkey(x, n) for x, _ in I.iterate(src, n)}


@meth('set', 'intersection')
def _(I, o, a, k, n):
    s = PySet(I, o.frozen)
    s.d.update(o.d)
    for src in a:
        ks = _keys(I, src, n)
        for h in list(s.d):
            if h not in ks:
                del s.d[h]
    return s


@meth('set', 'difference')
def _(I, o, a, k, n):
    s = PySet(I, o.frozen)
    s.d.update(o.d)
    for src in a:
        ks = _keys(I, src, n)
        for h in list(s.d):
            if h in ks:
                del s.d[h]
    return s


@meth('set', 'symmetric_difference')
def _(I, o, a, k, n):
    s = PySet(I, o.frozen)
    other = {I.hkey(x, n): x for x, _ in I.iterate(a[0], n)}
    s.d.update({h: x for h, x in o.d.items() if h not in other})
    s.d.update({h: x for h, x in other.items() if h not in o.d})
    return s


@meth('set', 'difference_update')
def _(I, o, a, k, n):
    for src in a:
        for h in _keys(I, src, n):
            if h in o.d:
                v = o.d.pop(h)
                I.wrote(o, ('remove',), v, None, n)


@meth('set', 'intersection_update')
def _(I, o, a, k, n):
    for src in a:
        ks = _keys(I, src, n)
        for h in list(o.d):
            if h not in ks:
                v = o.d.pop(h)
                I.wrote(o, ('remove',), v, None, n)


@meth('set', 'issubset')
def _(I, o, a, k, n):
    return set(o.d) <= _keys(I, a[0], n)


@meth('set', 'issuperset')
def _(I, o, a, k, n):
    return set(o.d) >= _keys(I, a[0], n)


@meth('set', 'isdisjoint')
def _(I, o, a, k, n):
    return not (set(o.d) & _keys(I, a[0], n))


@meth('tuple', 'index')
def _(I, o, a, k, n):
    for i, x in enumerate(o):
        if I.equal(x, a[0]):
            return i
    raise I.exc(ValueError, 'not in tuple', n)


@meth('tuple', 'count')
def _(I, o, a, k, n):
    return sum(1 for x in o if I.equal(x, a[0]))


def _strm(name):
    @meth('str', name)
    def f(I, o, a, k, n):
        if isinstance(o, str) and all(isinstance(x, (str, int, type(None))) or (
                isinstance(x, tuple) and all(isinstance(y, str) for y in x)) for x in a):
            try:
                r = getattr(o, name)(*a)
            except (ValueError, IndexError) as e:
                raise I.exc(type(e), str(e), n)
            if isinstance(r, list):
                return PyList(I, r)
            return r
        if isinstance(o, SStr) and name == 'startswith' and isinstance(a[0], str):
            p = o.parts[0] if o.parts else ''
            if isinstance(p, str):
                if p.startswith(a[0]):
                    return True
                if not a[0].startswith(p):
                    return False
            return I.choose(2, 'startswith') == 0
        if name in ('startswith', 'endswith', 'isdigit', 'isalpha'):
            return I.choose(2, name) == 0
        if name in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'title', 'capitalize', 'ljust', 'rjust'):
            return SStr(((name, I.deepkey(o) if not isinstance(o, str) else o, I.deepkey(tuple(a))),))
        raise Unsupported('str.%s on abstract string' % name)


for _n in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'split', 'replace', 'startswith', 'endswith',
           'isdigit', 'isalpha', 'find', 'title', 'capitalize', 'count', 'index', 'rsplit', 'splitlines',
           'partition', 'ljust', 'rjust', 'zfill', 'isalnum', 'isspace', 'isupper', 'islower', 'isnumeric',
           'isidentifier', 'rpartition', 'rfind', 'swapcase', 'casefold', 'center', 'rindex', 'istitle', 'isdecimal',
           'removeprefix', 'removesuffix', 'expandtabs'):
    _strm(_n)


@meth('str', 'join')
def _(I, o, a, k, n):
    items = I.iterate(a[0], n)
    parts = []
    for i, (x, m) in enumerate(items):
        if not isinstance(x, (str, SStr)):
            raise I.exc(TypeError, 'sequence item: expected str instance', n)
        if i:
            parts.extend((o,) if isinstance(o, str) else o.parts)
        parts.extend((x,) if isinstance(x, str) else x.parts)
    if all(isinstance(p, str) for p in parts):
        return ''.join(parts)
    return SStr(parts)


@meth('str', 'format')
def _(I, o, a, k, n):
    if isinstance(o, str):
        import string
        parts, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(o):
                parts.append(lit)
                if field is None:
                    continue
                if spec and '{' in spec:
                    raise ValueError('nested')
                first, rest = __import__('_string').formatter_field_name_split(field)
                if first == '':
                    first, auto = auto, auto + 1
                if isinstance(first, int):
                    if first >= len(a):
                        raise I.exc(IndexError, 'Replacement index out of range', n)
                    v = a[first]
                else:
                    if first not in k:
                        raise I.exc(KeyError, first, n)
                    v = k[first]
                for isattr, x in rest:
                    v = I.getattr_(v, x, n) if isattr else I.getitem(v, x, n)
                parts.extend(I.fmt_value(v, 'r' if conv == 'r' else '', spec or ''))
            return I.mkstr(parts)
        except (ValueError, AttributeError):
            pass
    return SStr((('format', I.deepkey(o), I.deepkey(tuple(a))),))


@meth('num', 'is_integer')
def _(I, o, a, k, n):
    x = I.num(o)
    if x.const:
        return x.c.denominator == 1
    if N.whole(x):
        return True
    return I.choose(2, 'is_integer') == 0


@meth('file', 'write')
def _(I, o, a, k, n):
    I.events.append(('write', o.meta[1], a[0], n))
    return 0


def file_lines(I, o, n=None):
    """Rest of the lines of a file whose contents the scenario fixes."""
    if o.meta[1] not in I.files:
        raise Unsupported('contents of the file %r' % (o.meta[1],))
    l = I.files[o.meta[1]]
    if l is None:
        raise I.exc(FileNotFoundError, 'No such file', n)
    p = o.fields.get('pos', 0)
    o.fields['pos'] = len(l)
    return list(l[p:])


@meth('file', 'read')
def _(I, o, a, k, n):
    if o.meta[1] in I.files:
        return ''.join(file_lines(I, o, n))
    return SStr((('read', repr(o.meta[1])),))


@meth('file', 'readlines')
def _(I, o, a, k, n):
    return PyList(I, file_lines(I, o, n))


@meth('file', 'readline')
@meth('file', '__next__')
def _(I, o, a, k, n):
    l = file_lines(I, o, n)
    if not l:
        return ''
    o.fields['pos'] = len(I.files[o.meta[1]]) - len(l) + 1
    return l[0]


@meth('file', 'close')
def _(I, o, a, k, n):
    return None


@meth('iter', '__next__')
def _(I, o, a, k, n):
    return I.call(I.builtins['next'], [o], {}, n)


# --------------------------------------------------------- external modules
def unknown_external(I, mod, name):
    def f(I, a, k, n):
        raise Unsupported('call of external %s.%s' % (mod, name))
    return Builtin('%s.%s' % (mod, name), f)


def external(I, mod, name):
    f = EXT.get((mod, name))
    if f is not None:
        if callable(f) and getattr(f, '_value', False):
            return f(I)
        return Builtin(mod + '.' + name, f)
    if mod == 'numbers':
        return BClass(getattr(numbers, name))
    if mod == 'collections.abc' or mod == 'typing':
        c = getattr(collections.abc, name, None)
        if c is not None:
            return BClass(c)
        return Opaque('typing.' + name)
    if mod == 'collections' and name == 'abc':
        return I.import_module('collections.abc')
    if mod == 'os' and name == 'path':
        return I.import_module('os.path')
    if mod in ('random', 'math', 'copy', 'itertools', 'json', 'os.path', 'os', 'shutil', 'webbrowser',
               'functools', 'heapq', 'operator', 'collections', 're', 'warnings', 'time', 'logging', 'bisect',
               'statistics', 'numpy', 'sys', 'uuid', 'datetime', 'secrets', 'io', 'pathlib'):
        return unknown_external(I, mod, name)
    return None


EXT = {}


def ext(mod, name):
    def d(f):
        EXT[mod, name] = f
        return f
    return d


def extv(mod, name):
    def d(f):
        f._value = True
        EXT[mod, name] = f
        return f
    return d


@ext('random', 'random')
def _(I, a, k, n):
    I.rnd += 1
    I.events.append(('random', 'random', n))
    return N.atom('rnd%d' % I.rnd, 0.0, 1 - 2.0 ** -53)     # [0, 1)


@ext('random', 'uniform')
def _(I, a, k, n):
    I.rnd += 1
    lo, hi = I.num(a[0]), I.num(a[1])
    I.events.append(('random', 'uniform', n))
    u = N.atom('rnd%d' % I.rnd, 0.0, 1 - 2.0 ** -53)
    r = N.add(lo, N.mul(u, N.add(hi, lo, -1)))
    r.lo, r.hi = max(r.lo, min(lo.lo, hi.lo)), min(r.hi, max(lo.hi, hi.hi))
    return r


@ext('random', 'normalvariate')
@ext('random', 'gauss')
def _(I, a, k, n):
    I.rnd += 1
    I.events.append(('normal', a[0], a[1], n))
    return N.add(I.num(a[0]), N.mul(N.atom('gauss%d' % I.rnd), I.num(a[1])))


@ext('random', 'shuffle')
def _(I, a, k, n):
    o = a[0]
    if not isinstance(o, PyList):
        raise I.exc(TypeError, 'shuffle needs a list', n)
    I.full(o)
    I.events.append(('random', 'shuffle', n))
    items = list(o._items)
    if len(items) > 1:
        o.pending = [((i, I.rnd), x) for i, x in enumerate(items)]
        I.rnd += 1
        o._items = []
        I.full(o)
    I.wrote(o, ('shuffle',), None, None, n)


@ext('random', 'choice')
def _(I, a, k, n):
    items = I.iterate(a[0], n)
    I.events.append(('random', 'choice', n))
    if not items:
        raise I.exc(IndexError, 'Cannot choose from an empty sequence', n)
    if not isinstance(a[0], (PyList, tuple, str, RangeV)):
        raise I.exc(TypeError, 'object is not subscriptable', n)
    ex = [x for x, m in items if m is None] or [x for x, m in items]
    return ex[I.choose(len(ex), 'choice')]


def _randint(I, a, k, n, incl):
    I.rnd += 1
    I.events.append(('random', 'randint', n))
    b = [I.norm(x) for x in a]
    if len(b) == 1:
        b = [0] + b
    if len(b) == 2 and not k and all(isinstance(x, int) for x in b):
        hi = b[1] - (0 if incl else 1)
        if hi < b[0]:
            raise I.exc(ValueError, 'empty range', n)
        if hi == b[0]:
            return hi
        return N.atom('rndi%d' % I.rnd, float(b[0]), float(hi), t='int')
    return N.atom('rndi%d' % I.rnd, t='int')


EXT['random', 'randint'] = lambda I, a, k, n: _randint(I, a, k, n, True)
EXT['random', 'randrange'] = lambda I, a, k, n: _randint(I, a, k, n, False)


@ext('random', 'sample')
def _(I, a, k, n):
    items = I.summ_items(a[0], n)
    I.events.append(('random', 'sample', n))
    kk = I.norm(a[1] if len(a) > 1 else k.get('k'))
    out = PyList(I, [])
    I.rnd += 1
    out.pending = [((i, I.rnd), x) for i, x in enumerate(items)]
    I.full(out)
    if isinstance(kk, int):
        return PyList(I, out._items[:kk])
    if isinstance(a[0], PyList) and I.try_equal(kk, I.length(a[0])) is True:
        return PyList(I, out._items)
    raise Unsupported('sample')


@ext('random', 'seed')
def _(I, a, k, n):
    I.events.append(('seed', n))


@extv('math', 'pi')
def _(I):
    return N.const(N.PI_D, 'float')


@extv('math', 'inf')
def _(I):
    return Inf(1)


@extv('math', 'nan')
def _(I):
    return NaN()


def _need_num(I, x, n):
    if not I.is_num(x):
        raise I.exc(TypeError, 'must be real number, not %s' % I.class_of(x).name, n)
    return x


@ext('math', 'sqrt')
def _(I, a, k, n):
    x = I.num(_need_num(I, a[0], n))
    if N.lin_bounds(x.lin, x.c)[1] < 0 or x.hi < 0:
        raise I.exc(ValueError, 'math domain error', n)
    if x.lo < 0:
        I.events.append(('maybe-domain', 'sqrt', n))
    return N.sqrt(x)


@ext('math', 'exp')
def _(I, a, k, n):
    x = _need_num(I, a[0], n)
    if isinstance(x, Inf):
        return x if x.s > 0 else N.const(0, 'float')
    return N.exp(I.num(x))


@ext('math', 'log')
def _(I, a, k, n):
    x = _need_num(I, a[0], n)
    if isinstance(x, Inf):
        return x
    x = I.num(x)
    rel = I.cmp_rel(x, 0)
    if '>' not in rel:
        raise I.exc(ValueError, 'math domain error', n)
    if rel != frozenset('>'):
        I.events.append(('maybe-domain', 'log', n))
    r = N.log(x)
    if len(a) > 1:
        r = N.div(r, N.log(I.num(a[1])))
    return r


@ext('math', 'isnan')
def _(I, a, k, n):
    x = _need_num(I, a[0], n)
    return isinstance(x, NaN)


@ext('math', 'isinf')
def _(I, a, k, n):
    return isinstance(_need_num(I, a[0], n), Inf)


@ext('math', 'isfinite')
def _(I, a, k, n):
    return not isinstance(_need_num(I, a[0], n), (Inf, NaN))


@ext('math', 'fabs')
def _(I, a, k, n):
    return I.call(I.builtins['abs'], a, {}, n)


@ext('math', 'pow')
def _(I, a, k, n):
    return I.binop(ast.Pow, a[0], a[1], n)


@ext('math', 'hypot')
def _(I, a, k, n):
    s = N.const(0, 'float')
    for x in a:
        s = N.add(s, N.mul(I.num(x), I.num(x)))
    return N.sqrt(s)


@ext('math', 'fsum')
def _(I, a, k, n):
    return I.call(I.builtins['sum'], [a[0], N.const(0, 'float')], {}, n)


def _uf(nm):
    @ext('math', nm)
    def f(I, a, k, n):
        if nm in ('floor', 'ceil', 'trunc'):
            x = I.num(a[0])
            if x.const:
                return getattr(math, nm)(x.c)
            if N.whole(x):
                return Num(x.v, x.lin, x.c, x.lo, x.hi, 'int')
        return N.func(nm, *[I.num(x) for x in a])


for _n in ('gamma', 'lgamma', 'erf', 'sin', 'cos', 'atan', 'tan', 'floor', 'ceil', 'trunc', 'log2', 'log10', 'log1p', 'expm1', 'comb', 'factorial'):
    _uf(_n)


@ext('math', 'isclose')
def _(I, a, k, n):
    if I.try_equal(a[0], a[1]) is True:
        return True
    return I.choose(2, 'isclose') == 0


Nothing = object()


def identity(v):
    return N.atom('id%s' % getattr(v, 'oid', id(v)), t='int')


def deepcopy(I, v, memo):
    if isinstance(v, Summ):
        return Summ(v.m, deepcopy(I, v.v, memo))
    if isinstance(v, tuple):
        return tuple(deepcopy(I, x, memo) for x in v)
    if not isinstance(v, Heap):
        if isinstance(v, Bound):
            return Bound(deepcopy(I, v.self, memo), v.fn)
        return v
    if id(v) in memo:
        return memo[id(v)]
    if 'dict' in memo:
        x = I.dget(memo['dict'], identity(v), None, Nothing)
        if x is not Nothing:
            return x
    if isinstance(v, PyList):
        I.full(v)
        r = PyList(I, [])
        memo[id(v)] = r
        r._items = [deepcopy(I, x, memo) for x in v._items]
    elif isinstance(v, PyDict):
        r = PyDict(I)
        r.default = v.default
        memo[id(v)] = r
        for k, _ in list(v.d.values()):
            I.dset(r, deepcopy(I, k, memo), deepcopy(I, I.dget(v, k), memo), raw=True)
    elif isinstance(v, PySet):
        r = PySet(I, v.frozen)
        memo[id(v)] = r
        for x in v.d.values():
            y = deepcopy(I, x, memo)
            r.d[I.hkey(y)] = y
    else:
        if isinstance(v.cls, Class):
            f = I.find_attr(v.cls, '__deepcopy__')
            if f is not None:
                d = memo.get('dict')
                if d is None:
                    d = memo['dict'] = PyDict(I)
                r = I.call(Bound(v, f), [d], {}, None)
                memo[id(v)] = r
                return r
        r = PyObj(I, v.cls)
        memo[id(v)] = r
        for k in list(v.fields):
            r.fields[k] = deepcopy(I, I.getattr_(v, k), memo)
    r.summ = v.summ
    r.tag = v.tag
    r.meta = ('copy', v)
    return r


@ext('copy', 'deepcopy')
def _(I, a, k, n):
    d = a[1] if len(a) > 1 else k.get('memo')
    if d is None:
        return deepcopy(I, a[0], {})
    if not isinstance(d, PyDict):
        raise Unsupported('deepcopy with another memo')
    return deepcopy(I, a[0], I.memos.setdefault(id(d), {'dict': d}))


@ext('copy', 'copy')
def _(I, a, k, n):
    v = a[0]
    if isinstance(v, PyList):
        return PyList(I, I.summ_items(v))
    if isinstance(v, PyDict):
        r = PyDict(I)
        r.default = v.default
        dict_update(I, r, v, n, raw=True)
        return r
    if isinstance(v, PySet):
        r = PySet(I, v.frozen)
        r.d.update(v.d)
        return r
    if isinstance(v, PyObj):
        r = PyObj(I, v.cls)
        for kk in list(v.fields):
            r.fields[kk] = I.getattr_(v, kk)
        return r
    return v


@ext('itertools', 'combinations')
def _(I, a, k, n):
    import itertools
    items = I.iterate(a[0], n)
    r = I.norm(a[1])
    out = []
    for t in itertools.combinations(items, r):
        ms = [m for _, m in t if m is not None]
        out.append((tuple(x for x, _ in t), ms[0] if ms else None))
    return IterV(out)


@ext('itertools', 'permutations')
def _(I, a, k, n):
    import itertools
    items = I.iterate(a[0], n)
    r = I.norm(a[1]) if len(a) > 1 else None
    return IterV([(tuple(x for x, _ in t), None) for t in itertools.permutations(items, r)])


@ext('itertools', 'product')
def _(I, a, k, n):
    import itertools
    ls = [I.iterate(x, n) for x in a]
    rep = I.norm(k.get('repeat', 1))
    if isinstance(rep, Num):
        raise Unsupported('product')
    out = []
    for t in itertools.product(*ls, repeat=rep):
        ms = [m for _, m in t if m is not None]
        out.append((tuple(x for x, _ in t), ms[0] if ms else None))
    return IterV(out)


def source(I, v, n):
    """A python iterator over the (value, mult) pairs of v, computed when
    asked for, except that what is not iterable is noticed at once."""
    if isinstance(v, (LazyV, PyList, PyDict, PySet, DictView)) or (
            isinstance(v, PyObj) and isinstance(v.cls, Class) and I.find_attr(v.cls, '__iter__') is not None):
        return I.live_iter(v, n)
    return iter(I.iterate(v, n))


def _chained(I, its, n):
    for x in its:
        for p in source(I, x, n):
            yield p


@ext('itertools', 'chain')
def _(I, a, k, n):
    return LazyV(_chained(I, list(a), n))


@ext('itertools', 'chain_from_iterable')
def _(I, a, k, n):
    src = source(I, a[0], n)

    def run():
        for x, m in src:
            if m is not None:
                raise Unsupported('chain of a summary')
            for p in source(I, x, n):
                yield p
    return LazyV(run())


@ext('itertools', 'islice')
def _(I, a, k, n):
    import itertools
    src = source(I, a[0], n)
    b = [I.norm(x) for x in a[1:]]
    if any(isinstance(x, Num) for x in b):
        raise Unsupported('islice')

    def run():
        for x, m in itertools.islice(src, *b):
            if m is not None:
                raise Unsupported('islice of a summary')
            yield x, m
    return LazyV(run())


@ext('itertools', 'count')
def _(I, a, k, n):
    s = a[0] if a else k.get('start', 0)
    st = a[1] if len(a) > 1 else k.get('step', 1)
    if not isinstance(s, int) or not isinstance(st, int):
        raise Unsupported('count')

    def run():
        i = s
        while True:
            yield i, None
            i += st
    return LazyV(run())


@ext('itertools', 'repeat')
def _(I, a, k, n):
    import itertools
    t = a[1:] or ([k['times']] if 'times' in k else [])
    if t:
        t = I.norm(t[0])
        if isinstance(t, Num):
            raise Unsupported('repeat')
        return IterV([(a[0], None)] * t)
    return LazyV(((x, None) for x in itertools.repeat(a[0])))


@ext('functools', 'reduce')
def _(I, a, k, n):
    items = [x for x, _ in I.iterate(a[1], n)]
    if len(a) > 2:
        acc = a[2]
    else:
        if not items:
            raise I.exc(TypeError, 'reduce() of empty sequence', n)
        acc = items.pop(0)
    for x in items:
        acc = I.call(a[0], [acc, x], {}, n)
    return acc


@ext('functools', 'partial')
def _(I, a, k, n):
    def f(I, b, kk, nn):
        d = dict(k)
        d.update(kk)
        return I.call(a[0], list(a[1:]) + b, d, nn)
    return Builtin('partial', f)


@ext('functools', 'wraps')
def _(I, a, k, n):
    return Builtin('wraps', lambda I, b, kk, nn: b[0])


@ext('heapq', 'nlargest')
@ext('heapq', 'nsmallest')
def _(I, a, k, n):
    raise Unsupported('heapq')


def _nlarge(rev):
    def f(I, a, k, n):
        kk = {'reverse': rev}
        if 'key' in k:
            kk['key'] = k['key']
        l = do_sort(I, PyList(I, []), I.summ_items(a[1], n), kk, n)
        return I.slice(l, SliceV(None, a[0], None), n)
    return f


EXT['heapq', 'nlargest'] = _nlarge(True)
EXT['heapq', 'nsmallest'] = _nlarge(False)


@ext('operator', 'itemgetter')
def _(I, a, k, n):
    return Builtin('itemgetter', lambda I, b, kk, nn: I.getitem(b[0], a[0], nn) if len(a) == 1 else tuple(
        I.getitem(b[0], x, nn) for x in a))


for _nm, _op in dict(add=ast.Add, sub=ast.Sub, mul=ast.Mult, truediv=ast.Div, floordiv=ast.FloorDiv, mod=ast.Mod,
                     pow=ast.Pow, and_=ast.BitAnd, or_=ast.BitOr, concat=ast.Add).items():
    EXT['operator', _nm] = lambda I, a, k, n, op=_op: I.binop(op, a[0], a[1], n)
for _nm, _op in dict(lt=ast.Lt, le=ast.LtE, gt=ast.Gt, ge=ast.GtE, eq=ast.Eq, ne=ast.NotEq, is_=ast.Is,
                     is_not=ast.IsNot).items():
    EXT['operator', _nm] = lambda I, a, k, n, op=_op: I.compare(op, a[0], a[1], n)
EXT['operator', 'not_'] = lambda I, a, k, n: not I.truth(a[0])
EXT['operator', 'neg'] = lambda I, a, k, n: I.binop(ast.Sub, 0, a[0], n)
EXT['operator', 'getitem'] = lambda I, a, k, n: I.getitem(a[0], a[1], n)
EXT['operator', 'contains'] = lambda I, a, k, n: I.contains(a[0], a[1], n)


@ext('operator', 'attrgetter')
def _(I, a, k, n):
    return Builtin('attrgetter', lambda I, b, kk, nn: I.getattr_(b[0], a[0], nn))


@ext('collections', 'defaultdict')
def _(I, a, k, n):
    d = PyDict(I)
    d.default = a[0] if a else None
    if len(a) > 1:
        dict_update(I, d, a[1], n, raw=True)
    return d


@ext('collections', 'OrderedDict')
def _(I, a, k, n):
    return construct(I, BClass(dict), a, k, n)


@ext('collections', 'Counter')
def _(I, a, k, n):
    d = PyDict(I)
    d.default = Builtin('zero', lambda I, a, k, n: 0)
    if a:
        if isinstance(a[0], PyDict):
            dict_update(I, d, a[0], n, raw=True)
        else:
            for x, m in I.iterate(a[0], n):
                I.dset(d, x, I.binop(ast.Add, I.dget(d, x, n, 0), 1), raw=True)
    return d


@ext('collections', 'namedtuple')
def _(I, a, k, n):
    f = a[1] if len(a) > 1 else k.get('field_names')
    if isinstance(f, str):
        f = f.replace(',', ' ').split()
    else:
        f = [x for x, _ in I.iterate(f, n)]
    if not all(isinstance(x, str) for x in f) or 'rename' in k:
        raise Unsupported('named tuple')
    dft = [x for x, _ in I.iterate(k['defaults'], n)] if k.get('defaults') is not None else []

    def make(I, b, kk, nn):
        v = dict(zip(f[len(f) - len(dft):], dft))
        v.update(zip(f, b))
        v.update(kk)
        if len(b) > len(f) or set(v) != set(f):
            raise I.exc(TypeError, 'arguments of a named tuple', nn)
        t = NTuple(v[x] for x in f)
        t.names = tuple(f)
        return t
    return Builtin('namedtuple', make)


@ext('collections', 'deque')
def _(I, a, k, n):
    return PyList(I, I.summ_items(a[0], n) if a else [])


@meth('list', 'popleft')
def _(I, o, a, k, n):
    return METHODS['list', 'pop'](I, o, [0], {}, n)


@meth('list', 'appendleft')
def _(I, o, a, k, n):
    return METHODS['list', 'insert'](I, o, [0, a[0]], {}, n)


@ext('json', 'dumps')
def _(I, a, k, n):
    I.events.append(('json', a[0], n))
    return SStr((('json', getattr(a[0], 'oid', 0)),))


def _parsed(I, v):
    if isinstance(v, dict):
        d = PyDict(I)
        for k, x in v.items():
            I.dset(d, k, _parsed(I, x), raw=True)
        return d
    if isinstance(v, list):
        return PyList(I, [_parsed(I, x) for x in v])
    if isinstance(v, float):
        return N.const(v)
    return v


@ext('json', 'load')
def _(I, a, k, n):
    if not (isinstance(a[0], PyObj) and a[0].meta and a[0].meta[0] == 'file'):
        raise Unsupported('json.load')
    return EXT['json', 'loads'](I, [''.join(file_lines(I, a[0], n))], {}, n)


@ext('json', 'loads')
def _(I, a, k, n):
    if isinstance(a[0], str):
        try:
            return _parsed(I, json.loads(a[0]))
        except ValueError as e:
            raise I.exc(ValueError, str(e), n)
    d = PyDict(I)
    I.events.append(('json.loads', a[0], d, n))
    return d


@ext('json', 'dump')
def _(I, a, k, n):
    I.events.append(('json', a[0], n))
    if isinstance(a[1], PyObj) and a[1].meta:
        I.events.append(('write', a[1].meta[1], SStr((('json', getattr(a[0], 'oid', 0)),)), n))


def _path(nm):
    @ext('os.path', nm)
    def f(I, a, k, n):
        if all(isinstance(x, str) for x in a):
            if nm in ('realpath', 'abspath'):
                return posixpath.normpath(posixpath.join('/CWD', a[0]))
            if nm == 'expanduser':
                return a[0]
            return getattr(posixpath, nm)(*a)
        return SStr(((nm,) + tuple(I.deepkey(x) if not isinstance(x, (str, SStr)) else x for x in a),))


for _n in ('dirname', 'realpath', 'abspath', 'basename', 'normpath', 'expanduser', 'splitext', 'split', 'isabs'):
    _path(_n)


@ext('os.path', 'join')
def _(I, a, k, n):
    for x in a:
        if not isinstance(x, (str, SStr)):
            raise I.exc(TypeError, 'expected str, bytes or os.PathLike object', n)
    if all(isinstance(x, str) for x in a):
        return posixpath.join(*a)
    return SStr((('join',) + tuple(a),))


@ext('os.path', 'exists')
@ext('os.path', 'isfile')
@ext('os.path', 'isdir')
def _(I, a, k, n):
    key = ('exists', repr(a[0]))
    if isinstance(a[0], str):
        import posixpath
        p = posixpath.normpath(a[0])
        made = [e[2] for e in I.events if e[0] == 'copyfile'] + [e[1] for e in I.events if e[0] == 'mkdir'] + [
            e[1] for e in I.events if e[0] == 'open' and isinstance(e[2], str) and any(c in e[2] for c in 'wax')]
        if any(isinstance(x, str) and posixpath.normpath(x) == p for x in made):
            return True
    if key not in I.memo:
        I.memo[key] = I.choose(2, 'exists') == 0
    return I.memo[key]


@ext('os', 'makedirs')
@ext('os', 'mkdir')
def _(I, a, k, n):
    I.events.append(('mkdir', a[0], n))


@ext('os', 'remove')
@ext('os', 'unlink')
def _(I, a, k, n):
    I.events.append(('delete', a[0], n))


@ext('shutil', 'copy')
@ext('shutil', 'copyfile')
@ext('shutil', 'copy2')
def _(I, a, k, n):
    I.events.append(('copyfile', a[0], a[1], n))
    return a[1]


@ext('webbrowser', 'open')
def _(I, a, k, n):
    I.events.append(('browser', a[0], n))
    return True


@ext('warnings', 'warn')
def _(I, a, k, n):
    return None


@meth('tuple', '_replace')
def _(I, o, a, k, n):
    t = NTuple(k.get(x, y) for x, y in zip(o.names, o))
    t.names = o.names
    return t


@meth('tuple', '_asdict')
def _(I, o, a, k, n):
    d = PyDict(I)
    for x, y in zip(o.names, o):
        I.dset(d, x, y, raw=True)
    return d


# --- memoising decorators --------------------------------------------------

def _memoised(I, f):
    memo = {}

    def call(I, a, k, n):
        key = tuple(I.hkey(x, n) for x in a) + tuple((x, I.hkey(k[x], n)) for x in k)
        if key not in memo:
            memo[key] = I.call(f, list(a), dict(k), n)
        return memo[key]
    b = Builtin('memoised', call)
    b.method = True
    return b


@ext('functools', 'lru_cache')
def _(I, a, k, n):
    if a and isinstance(a[0], (Func, Builtin)):
        return _memoised(I, a[0])
    return Builtin('lru_cache', lambda I, b, kk, nn: _memoised(I, b[0]))


@ext('functools', 'cache')
def _(I, a, k, n):
    return _memoised(I, a[0])


@ext('functools', 'cached_property')
def _(I, a, k, n):
    return PropertyV(a[0], 'cached')


# --- more of itertools and operator ----------------------------------------

def _plain(src):
    for x, m in src:
        if m is not None:
            raise Unsupported('itertools over a summary')
        yield x


@ext('itertools', 'zip_longest')
def _(I, a, k, n):
    import itertools
    ls = [_plain(source(I, x, n)) for x in a]
    fv = k.get('fillvalue')
    return LazyV((t, None) for t in itertools.zip_longest(*ls, fillvalue=fv))


@ext('itertools', 'accumulate')
def _(I, a, k, n):
    import itertools
    f = a[1] if len(a) > 1 else k.get('func')
    kw = {'initial': k['initial']} if k.get('initial') is not None else {}
    g = (lambda x, y: I.binop(ast.Add, x, y, n)) if f is None else (lambda x, y: I.call(f, [x, y], {}, n))
    return LazyV((x, None) for x in itertools.accumulate(_plain(source(I, a[0], n)), g, **kw))


@ext('itertools', 'starmap')
def _(I, a, k, n):
    src = _plain(source(I, a[1], n))
    return LazyV((I.call(a[0], [y for y, _ in I.iterate(x, n)], {}, n), None) for x in src)


@ext('itertools', 'takewhile')
def _(I, a, k, n):
    import itertools
    src = _plain(source(I, a[1], n))
    return LazyV((x, None) for x in itertools.takewhile(lambda x: I.truth(I.call(a[0], [x], {}, n)), src))


@ext('itertools', 'dropwhile')
def _(I, a, k, n):
    import itertools
    src = _plain(source(I, a[1], n))
    return LazyV((x, None) for x in itertools.dropwhile(lambda x: I.truth(I.call(a[0], [x], {}, n)), src))


@ext('itertools', 'filterfalse')
def _(I, a, k, n):
    src = _plain(source(I, a[1], n))
    return LazyV((x, None) for x in src if not I.truth(x if a[0] is None else I.call(a[0], [x], {}, n)))


@ext('itertools', 'groupby')
def _(I, a, k, n):
    f = a[1] if len(a) > 1 else k.get('key')
    src = _plain(source(I, a[0], n))

    def run():
        cur, kk = None, None
        for x in src:
            q = x if f is None else I.call(f, [x], {}, n)
            if cur is not None and I.equal(q, kk, n):
                cur.append((x, None))
                continue
            if cur is not None:
                yield (kk, IterV(cur)), None
            cur, kk = [(x, None)], q
        if cur is not None:
            yield (kk, IterV(cur)), None
    return LazyV(run())


@ext('itertools', 'cycle')
def _(I, a, k, n):
    import itertools
    return LazyV((x, None) for x in itertools.cycle(_plain(source(I, a[0], n))))


@ext('itertools', 'compress')
def _(I, a, k, n):
    return LazyV((x, None) for x, s in zip(_plain(source(I, a[0], n)), _plain(source(I, a[1], n))) if I.truth(s))


@ext('operator', 'methodcaller')
def _(I, a, k, n):
    return Builtin('methodcaller', lambda I, b, kk, nn: I.call(I.getattr_(b[0], a[0], nn), list(a[1:]), dict(k), nn))
