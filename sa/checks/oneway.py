"""C30: one-way preprocessors convert exactly what they are documented to convert."""
from .. import num as N
from ..values import *
from ..harness import *
from .prep import P, shuffled, reporter, call, X, FLAT, RELS, NEST

RULE30 = 'a one-way preprocessor converts exactly what it names and keeps everything else'
BAD = object()


def inst(I, d):
    if isinstance(d, dict):
        return mkdict(I, {k: inst(I, v) for k, v in d.items()})
    if isinstance(d, list):
        return PyList(I, [inst(I, v) for v in d])
    if isinstance(d, str) and d == X:
        return N.atom('generic number')
    return N.const(d) if isinstance(d, float) else d


def ref_var(d, targets):
    out = {}
    for k, v in d.items():
        if not isinstance(k, tuple) and isinstance(v, dict) and (targets is None or k in targets):
            out[k if k[0] == '?' else '?' + k] = ref_var(v, targets)
        else:
            out[k] = v
    return out


def ref_nom(d, targets):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out[k] = ref_nom(v, targets)
        elif (targets is None or k in targets) and isinstance(v, (int, float)):
            out[k] = str(v)
        else:
            out[k] = v
    return out


def ref_num(d, targets, on_fail):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            r = ref_num(v, targets, on_fail)
            if r is BAD:
                return BAD
            out[k] = r
        elif targets is None or k in targets:
            if v == X:
                out[k] = v
                continue
            try:
                out[k] = float(v)
            except (ValueError, TypeError):
                if on_fail == 'drop':
                    continue
                if on_fail == 'zero':
                    out[k] = 0.0
                    continue
                return BAD
        else:
            out[k] = v
    return out


def odd(d):
    """Is there a value that is neither text nor a number?"""
    return any(odd(v) if isinstance(v, dict) else not isinstance(v, (str, int, float)) for v in d.values())


def cob_str(d):
    if isinstance(d, str):
        return "'" + d + "'"
    if isinstance(d, dict):
        return '{' + ','.join(cob_str(k) + ':' + cob_str(d[k]) for k in sorted(d, key=str)) + '}'
    return str(d)


def san_tuple(t):
    return tuple(san_tuple(x) if isinstance(x, tuple) else x if isinstance(x, str) else str(x) for x in t)


def ref_san(d, spec):
    out = {}
    for k, v in d.items():
        if isinstance(k, tuple):
            nk = san_tuple(k) if spec == 'trestle' else k
        else:
            nk = k if isinstance(k, str) else str(k)
        if not isinstance(v, (dict, list)):
            out[nk] = v
        elif isinstance(v, dict) and spec == 'trestle':
            out[nk] = ref_san(v, spec)
        else:
            out[nk] = cob_str(v)
    return out


VARS = [FLAT, RELS, NEST, {'ob1': {'x': X, 't': 'sq', 'in': {'k': 'v', '_h': 'w'}}, '?ob2': {'ob3': {'ob1': {'y': 0}}}, 'ob3': 'v',
                           '_hid': {'k': 'v'}, ('r', 'ob1', '?ob2'): {'k': {'l': 'v'}}, 'set': {'ob1': {'z': 1}}},
        {'who?': {'a': 'b', 'x?y': {'c': 'v'}}, 'a_b': {'k': 'v'}, 'p q': {'?': 'v'}, '??z': {'k': {}}, '(x)': {}, 'n': None, 'b': False}]
NOMS = [{'x': 12.5, 'y': 9, 'z': 'top', 'b': True, 'f': False, 'n': None, '_h': 0, '_i': -1.25, 'o': {'x': 3, 'w': 'v', 'o': {'y': 0.5, 'x': 1}},
         ('r', 'p', 'q'): 4, 's': '7', 'big': 10 ** 12},
        {'o': {'y': 9, 'o': {'o': {'y': 1}}}, 'y': 'v', 'e': ''}]
NUMS = [{'a': '123', 'b': '12.1241', 'c': '-3', '_d': '1e3', 'e': '0', ('r', 'p'): '4', 'f': 7, 'g': 2.5, 'o': {'a': '5', 'o': {'c': '.5'}}, 'x': X},
        {'a': '1', 'c': 'bad', 'd': '', '_e': 'bad', 'o': {'a': '2', 'c': 'bad', 'o': {'c': 'bad', 'b': '9'}}, 'b': '0'},
        {'a': True, 'b': False, 'c': '1', 'o': {'a': False, 'c': True, 'd': 'bad'}, 'd': 3},
        {'a': None, 'b': ('x', 'y'), 'c': '4', 'o': {'a': (), 'd': None, 'c': ['p']}, 'd': ' 5 '},
        {'a': 'bad'}, {'o': {'a': 'x1'}, 'b': '2', 'c': '3'}, {'c': 'v', 'b': 'w'}]
SANS = [{'a1': 'v1', 'a2': 2, 'a3': {'aa1': '1', 'aa2': 2}, 1: 'v2', ('r1', 2, 'r3'): 'v4', ('r4', 'r5'): {'aa3': 4, 3: 'v6'}},
        {'a': 'v', 'l': ['p', 'q'], 7: ['u'], 8: {'k': {2: 'v'}}, ('s', ('t', 3, ('u', 4)), 'w'): 0, None: 'n', '_h': None, '?o': {'b': True, 5: {6: 'x'}}, 'e': ''},
        {'o': {'l': [1, 2], 'p': {}}, ('r', ()): 'v', ('r', ((), 2), '', None): 'w', ('r', ('a', 'b')): True, ('q', 1): ['z'], ('nn', 'x'): None, ('nn', 3): None, ('nn', 4): False, ('q', ('p', 2)): {'d': {'e': 'f'}}, True: 'y'}]


def cases():
    for d in VARS:
        for t in ((), ('o',), ('ob1', 'ob3'), ('?ob2', '?p', 'i'), ('zz',), ('_hid', 'a'), ('who?', 'p q', 'c')):
            yield 'ObjectVariablizer', t, {}, d, ref_var(d, t or None)
    for d in NOMS:
        for t in ((), ('y',), ('x', '_h', 'b'), ('o',), ('zz',), (('r', 'p', 'q'), 'n', 'z')):
            yield 'NumericToNominal', t, {}, d, ref_nom(d, t or None)
    for d in NUMS:
        for of in ('break', 'drop', 'zero', 'other'):
            for t in ((), ('a',), ('a', 'b'), ('c', 'd'), ('_e', '_d', ('r', 'p')), ('zz',)):
                r = ref_num(d, t or None, of)
                if of == 'break' and not t:
                    yield 'NominalToNumeric', (), {}, d, r
                if not t:
                    yield 'NominalToNumeric', (), {'on_fail': of}, d, r
                yield 'NominalToNumeric', (of,) + t, {}, d, r
    for d in SANS:
        yield 'Sanitizer', (), {}, d, ref_san(d, 'trestle')
        for s in ('trestle', 'cobweb', 'cobweb3', 'Trestle', 'COBWEB3', 'Cobweb'):
            yield 'Sanitizer', (s,), {}, d, ref_san(d, s.lower())


def scen(ctx, prog, name, a, kw, d, ref, k):
    label = '%s%r%s' % (name, a, kw or '')
    raises = ref is BAD

    def run(I):
        p = P(I, name, *a, **kw)
        if I.choose(2, 'used before'):
            try:
                call(I, p, 'transform', inst(I, {'zz': '1', 'ob1': '2'}))
            except PyRaise:
                raise Unsupported('transform of a plain instance fails')
        x = inst(I, shuffled(d, k))
        try:
            if I.choose(2, 'batch'):
                r = call(I, p, 'batch_transform', PyList(I, [x]))
                I.full(r)
                t = r._items[0]
            else:
                t = call(I, p, 'transform', x)
        except PyRaise as e:
            if raises and e.exc.cls.name in ('ValueError', 'TypeError')[:1 + odd(d)]:
                return None
            raise
        if raises:
            return 'a value that is no number is accepted'
        want = deep(I, inst(I, ref))
        if deep(I, t) != want:
            return 'gives %r' % (t,)
        u = call(I, p, 'undo_transform', t)
        if deep(I, u) != want:
            return 'undoing does not give an equal instance: %r' % (u,)
        return None
    ok, bad = reporter(ctx, RULE30, label, name)
    explore_into(ctx, prog, run, label, ok, bad)


def invalid(ctx, prog):
    def run(I):
        s = ['other', '', 'cobweb 3'][I.choose(3, 'spec')]
        try:
            P(I, 'Sanitizer', s)
        except PyRaise as e:
            return None if e.exc.cls.name == 'ValueError' else 'Sanitizer(%r) raises %s' % (s, e.exc.cls.name)
        return 'Sanitizer(%r) is accepted' % s
    ok, bad = reporter(ctx, RULE30, 'unknown specification', 'Sanitizer')
    explore_into(ctx, prog, run, 'unknown specification', ok, bad)


def check(ctx, prog):
    from ..par import run_tasks
    ctx.rule('abstract value of the converted instance equals the reference conversion for generic numbers and every value class, '
             'target list, option and attribute order')
    T = [('invalid', lambda c: invalid(c, prog))]
    for i, (name, a, kw, d, ref) in enumerate(cases()):
        for k in range(3 if ctx.thorough else 2):
            T.append(('%s %d %d' % (name, i, k), lambda c, z=(name, a, kw, d, ref, k): scen(c, prog, *z)))
    run_tasks(ctx, T)
