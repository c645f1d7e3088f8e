"""C33: relations are searched, renamed and compared part by part."""
import itertools
from ..values import *
from ..harness import *
from .prep import reporter

RULE = 'relations are searched, renamed and compared by all their parts'
MP = PK + 'structure_mapper'

# attributes of every shape class: names, variables, hidden names, relations of relations
ATTRS = ['a', '?x', '_h', 'x?', '(p)', ('r', 'a'), ('r', '?x'), ('?x', 'a'), ('r', '?x', '?y'), ('r', '?x', '?x'), ('_', ('_h', '?x')),
         ('r', ('s', '?x'), '?y'), ('r', ('s', '?y', 'a'), ('s', '?x', 'b')), ('r', ('s', ('t', '?x', '?z')), 'a'),
         ('r', ('?x', '?y')), ('r', 'x', ''), ('r', ('?x', ('?y', '?z')), 'y?'), ('one',), ('r', ('q',), ('q', '?z'))]
MAPS = [{}, {'?x': '?c1'}, {'?x': '?y', '?y': '?x'}, {'?x': '?c1', '?y': '?c2', '?z': '?c3'}, {'?y': '?x'}, {'a': 'b'}, {'?w': '?c1'},
        {'?x': '?x'}, {'?x': '?x', '?y': '?z'}]


def leaves(a):
    if isinstance(a, tuple):
        for x in a:
            for y in leaves(x):
                yield y
    else:
        yield a


def parts(a):
    yield a
    if isinstance(a, tuple):
        for x in a:
            for y in parts(x):
                yield y


def ren(a, m):
    if isinstance(a, tuple):
        return tuple(ren(x, m) for x in a)
    return m.get(a, a)


def variables(a):
    return {x for x in leaves(a) if x[:1] == '?'}


def match(i, c, m):
    if isinstance(i, tuple) != isinstance(c, tuple):
        return False
    if isinstance(i, tuple):
        return len(i) == len(c) and all(match(x, y, m) for x, y in zip(i, c))
    if i[:1] == '?' and i in m:
        return m[i] == c
    if i[:1] == '?' and c[:1] == '?':
        return True
    return i == c


def pyset(I, v):
    return {x for x, _ in I.iterate(v)}


def cases():
    T = [a for a in ATTRS if isinstance(a, tuple)]
    full = [a for a in ATTRS if '' not in set(leaves(a))]
    for a in T:
        for m in MAPS:
            yield 'structure_mapper.bind_flat_attr', a, lambda I, a=a, m=m: ([a, mkdict(I, m)], {}), ren(a, m), None
            yield 'preprocessor.rename_relation', a, lambda I, a=a, m=m: ([a, mkdict(I, m)], {}), ren(a, m), None
    yield ('preprocessor.rename_relation', 'a part that is a relation', lambda I: (
        [('f', ('o1', ('o2', 'o3')), 'o2'), mkdict(I, {('o1', ('o2', 'o3')): 'o9', 'o2': 'o8'})], {}), ('f', 'o9', 'o8'), None)
    for c in ('?x', '?y', '?z', 'a', 'r', 's', ('s', '?x'), '?', 'x'):
        for a in ATTRS:
            yield 'structure_mapper.contains_component', (c, a), lambda I, a=a, c=c: ([c, a], {}), c in set(parts(a)), bool
    for a in full:
        yield 'preprocessor.get_attribute_components', a, lambda I, a=a: ([a], {}), variables(a), set
        yield 'preprocessor.get_attribute_components', a, lambda I, a=a: ([a, True], {}), variables(a), set
        if not any(x[:1] == '_' for x in leaves(a)):
            yield ('preprocessor.get_attribute_components', (a, 'all'), lambda I, a=a: ([a, False], {}), set(parts(a)), set)
    for k in (0, 1, 2, 3, len(full)):
        for j in range(0, len(full), 4):
            l = (full + full)[j:j + k]
            want = set().union(*[variables(a) for a in l]) if l else set()
            yield 'structure_mapper.get_component_names', l, lambda I, l=l: ([mkdict(I, {a: 'v' for a in l})], {}), want, set
    for i, c in itertools.product(full, repeat=2):
        for m in MAPS[:5] + MAPS[-2:]:
            for i2, c2 in ((i, c), (i, ren(c, {'?x': '?c1', '?y': '?c2', '?z': '?c3', 'b': 'a'})), (ren(i, {'a': 'b'}), c)):
                yield 'structure_mapper.is_partial_match', (i2, c2, m), lambda I, z=(i2, c2, m): (
                    [z[0], z[1], mkdict(I, z[2])], {}), match(i2, c2, m), bool


def scen(ctx, prog, fn, what, args, want, kind):
    label = '%s of %s' % (fn.split('.')[-1], what)

    def run(I):
        mod, name = fn.split('.')
        a, kw = args(I)
        a0 = [deep(I, x) for x in a]
        r = I.call(I.get(PK + mod, name), a, kw)
        if [deep(I, x) for x in a] != a0:
            return 'changes its argument'
        got = I.truth(r) if kind is bool else pyset(I, r) if kind is set else r
        if got != want:
            return 'gives %r instead of %r' % (sorted(map(str, got)) if kind is set else got, want)
        return None
    ok, bad = reporter(ctx, RULE, label, fn)
    explore_into(ctx, prog, run, label, ok, bad)


def check(ctx, prog):
    from ..par import run_tasks
    ctx.rule('result of every helper on relations = that of the structural definition, for every shape class of attribute, pair of '
             'attributes and mapping')
    by = {}
    for c in cases():
        by.setdefault(c[0], []).append(c)
    T = []
    for fn, l in by.items():
        for j in range(0, len(l), 200):
            T.append(('%s %d' % (fn, j), lambda c, part=l[j:j + 200]: [scen(c, prog, *x) for x in part]))
    run_tasks(ctx, T)
