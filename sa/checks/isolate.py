"""C22: trees and preprocessors are independent of each other.  C27: sources of randomness."""
import ast
from .. import num as N
from ..values import *
from ..harness import *
from .life import struct, sdiff, used_tree, KINDS
from .prep import reporter, call, P, MAKE, inst as pinst, FLAT, OBJS
from .own import nodes_of
from .mapper import opaque_cost, short_search

RULE = 'what happens to one tree neither changes nor influences another one'
INS = {'cobweb': [{'a': 'v', '_h': 'w'}, {'a': 'v', '_h': 'w', 'b': 'u'}], 'cobweb3': [{'a': 'v', 'x': 3}, {'a': 'w', 'x': 2, '_y': 1}],
       'trestle': [{'a': 'v', 'x': 3, '?p': {'c': 'v'}}, {'a': 'v', '?q': {'c': 'w', 'y': 1}}],
       'dummy': [{'a': 'v', 'x': 3}, {'a': 'w', 'o': {'y': 2}}]}
OTHER = {'cobweb': [{'a': 'q', 'z': 'u'}, {'b': 'v'}], 'cobweb3': [{'a': 'q', 'x': 100, 'z': 7}, {'x': 50}],
         'trestle': [{'a': 'q', 'x': 100, '?p': {'c': 'q', '?r': {'e': 'v'}}}, {'?q': {'y': 9}, 'x': 70}],
         'dummy': [{'a': 'q', 'x': 100}, {'x': 50, 'o': {'y': 5}}]}
CFG = {'cobweb': {}, 'cobweb3': {'scaling': False, 'inner_attr_scaling': False}, 'trestle': {'scaling': False, 'inner_attr_scaling': False},
       'dummy': {}}


def setup(I):
    quick_scores(I)
    opaque_whatif(I)
    opaque_cost(I)
    short_search(I)


def first_assignment(I):
    """The same assignment for the same matrix: the first free columns."""
    def compute(I, f, args, kw, node):
        rows = args[1]._items
        out = [(i, i) for i in range(len(rows))]
        return PyList(I, out)
    I.intercepts['munkres.Munkres.compute'] = compute


def learn(I, t, ins):
    for d in ins:
        I.call(I.getattr_(t, 'ifit'), [mk(I, d)], {})


def flat_struct(I, t):
    return struct(I, t)


def influence(ctx, prog, kind, other):
    label = 'a %s tree beside a %s tree' % (kind, other)

    def run(I):
        setup(I)
        first_assignment(I)
        k = 1 + I.choose(2, 'instances')
        # an undisturbed tree
        ref = new_tree(I, kind)
        learn(I, ref, INS[kind][:k])
        how = I.choose(4, 'when')
        t = None
        if how == 1:
            t = new_tree(I, kind)
        o = new_tree(I, other, **CFG[other])
        learn(I, o, OTHER[other])
        if how == 2:
            I.call(I.getattr_(o, 'clear'), [], {})
        if t is None:
            t = new_tree(I, kind)
        if how == 3:
            learn(I, t, INS[kind][:1])
            o2 = new_tree(I, other, **CFG[other])
            learn(I, o2, OTHER[other][:1])
            I.call(I.getattr_(o, 'categorize'), [mk(I, OTHER[other][0])], {})
            learn(I, t, INS[kind][1:k])
        else:
            learn(I, t, INS[kind][:k])
        a, b = struct(I, t), struct(I, ref)
        if a != b:
            return 'a tree learns differently after another one was used: %s' % sdiff(a, b)
        ids = [n.fields['concept_id'] for x in ((ref, o, t) if (kind == 'cobweb') == (other == 'cobweb') else (ref, t)) for n in nodes_of(I, I.getattr_(x, 'root'))]
        if len(set(map(str, ids))) != len(ids):
            return 'concepts of different trees have the same number: %s' % ids
        return None
    ok, bad = reporter(ctx, RULE, label, 'ifit')
    explore_into(ctx, prog, run, label, ok, bad)


def effect(ctx, prog, kind, other):
    label = 'using a %s tree beside a learned %s tree' % (other, kind)

    def run(I):
        setup(I)
        g = used_tree(I, kind, {}, 'x')
        for n in nodes_of(I, g.root):
            pass
        s0 = struct(I, g.tree)
        o = new_tree(I, other, **CFG[other])
        op = I.choose(5, 'operation')
        d = OTHER[other]
        learn(I, o, d[:1 + (op > 0)])
        if op == 1:
            I.call(I.getattr_(o, 'clear'), [], {})
        elif op == 2:
            I.call(I.getattr_(o, 'categorize'), [mk(I, d[0])], {})
        elif op == 3:
            from .predict import RULEI
            for q in ('cobweb.CobwebNode', 'cobweb3.Cobweb3Node'):
                I.intercepts[PK + q + '.predict'] = lambda I, f, a, k, n: 'z'
            I.call(I.getattr_(o, 'infer_missing'), [mk(I, d[1])], {})
        elif op == 4:
            I.call(I.getattr_(o, 'fit'), [PyList(I, [mk(I, x) for x in d[:1]])], {})
        s1 = struct(I, g.tree)
        return None if s0 == s1 else 'the learned tree changes: %s' % sdiff(s1, s0)
    ok, bad = reporter(ctx, RULE, label, 'ifit')
    explore_into(ctx, prog, run, label, ok, bad)


def counter(I, pre):
    n = [0]

    def gen(I, a, k, node):
        n[0] += 1
        return '?%s%d' % (pre, n[0])
    return Builtin('gensym', gen)


NAMED = {
    'NameStandardizer': lambda I, c: P(I, 'NameStandardizer', c),
    'ExtractListElements': lambda I, c: P(I, 'ExtractListElements', c),
    'Flattener': lambda I, c: P(I, 'Flattener'),
    'ListsToRelations': lambda I, c: P(I, 'ListsToRelations'),
    'SubComponentProcessor': lambda I, c: P(I, 'Pipeline', P(I, 'Flattener'), P(I, 'SubComponentProcessor')),
    'ObjectVariablizer': lambda I, c: P(I, 'ObjectVariablizer'),
    'Sanitizer': lambda I, c: P(I, 'Sanitizer'),
    'standard pipeline': lambda I, c: P(I, 'Pipeline', P(I, 'NameStandardizer', c), P(I, 'Flattener'), P(I, 'SubComponentProcessor')),
}
PLAIN = {'a': 'v', '?p': {'c': 'v', 'q': {'d': 'u'}}, 'o': {'k': 'v', '?r': {'e': 'w'}}, ('near', '?p', 'x'): 'yes'}
WITHL = {'a': 'v', 'l': ['p', 'q'], 'o': {'m': ['u', 'w'], 'j': 'v'}}
BEFORE = {'?p': {'c': 'other', '?q': {'d': 'z'}}, '?r': {'x': 'y'}, ('far', '?p', '?r', 'k'): 'no', 'a': 'other', 'o': {'n': 'z'}}


def preps(ctx, prog, name):
    label = '%s after other instances' % name
    make = NAMED[name]
    lists = name in ('ExtractListElements', 'ListsToRelations')

    def run(I):
        d = WITHL if lists else PLAIN
        ref = make(I, counter(I, 'g'))
        t0 = call(I, ref, 'transform', pinst(I, d))
        u0 = call(I, ref, 'undo_transform', t0)
        how = I.choose(3, 'before')
        b = dict(BEFORE, l=['s', 't', 'r'], o={'m': ['z'], 'n': 'z'}) if lists else BEFORE
        if how == 0:      # another preprocessor was used
            o = make(I, counter(I, 'h'))
            z = call(I, o, 'transform', pinst(I, b))
            p = make(I, counter(I, 'g'))
            t = call(I, p, 'transform', pinst(I, d))
            call(I, o, 'undo_transform', z)
        elif how == 1:    # another one is used between transforming and undoing
            p = make(I, counter(I, 'g'))
            t = call(I, p, 'transform', pinst(I, d))
            o = make(I, counter(I, 'h'))
            call(I, o, 'transform', pinst(I, b))
        else:             # the same one was used for another instance
            c = counter(I, 'g')
            cell = [0]

            def gen(I, a, k, n):
                cell[0] += 1
                return '?%s%d' % ('h' if cell[0] < 100 else 'g', cell[0] % 100)
            p = make(I, Builtin('gensym', gen))
            z = call(I, p, 'transform', pinst(I, b))
            call(I, p, 'undo_transform', z)
            cell[0] = 100
            t = call(I, p, 'transform', pinst(I, d))
        if deep(I, t) != deep(I, t0):
            return 'the instance is transformed differently: %r' % (t,)
        u = call(I, p, 'undo_transform', t)
        if deep(I, u) != deep(I, u0):
            return 'the instance is restored differently: %r' % (u,)
        return None
    ok, bad = reporter(ctx, 'what a preprocessor did before does not influence the next instance', label, name)
    explore_into(ctx, prog, run, label, ok, bad)


BIG = (9, 99, 255, 999, 1023, 9999, 32767, 65535, 99999, 10 ** 6, 2 ** 31 - 1, 2 ** 32, 10 ** 12)


def serial(v):
    """The number in a concept number or object name."""
    if isinstance(v, int) and not isinstance(v, bool):
        return v
    if isinstance(v, str):
        d = v.lstrip('?abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_-')
        if d.isdigit():
            return int(d)
    raise Unsupported('names have another form')


def long_used(I, draw, stores, K):
    """Three names drawn after K names were given out, by a counter found by
    watching what one draw changes."""
    def ints():
        return {(i, k): v for i, s in enumerate(stores) for k, v in s.items() if isinstance(v, int) and not isinstance(v, bool)}
    a, c0 = serial(draw()), ints()
    b, c1 = serial(draw()), ints()
    hot = [k for k in c1 if k in c0 and c1[k] == c0[k] + 1]
    if len(hot) != 1 or b != a + 1:
        raise Unsupported('names are not given out by a counter')
    (i, k), = hot
    stores[i][k] = K + c1[i, k] - b
    new = [draw() for _ in range(3)]
    ns = [serial(x) for x in new]
    if len(set(ns)) != 3 or any(1 <= x <= K for x in ns):
        return 'after %d of them, the next ones are %s, which are in use' % (K, ', '.join(map(str, new)))
    return None


def big_scen(ctx, prog, what):
    label = 'names given out by ' + what

    def run(I):
        K = BIG[I.choose(len(BIG), 'names in use')]
        if what == 'default_gensym':
            f = I.get(PK + 'preprocessor', 'default_gensym')
            return long_used(I, lambda: I.call(f, [], {}), [I.module(PK + 'preprocessor').env], K)
        kind, w = what.split()
        t = new_tree(I, kind)
        if w == 'objects':
            m = I.getattr_(t, 'gensym')
            return long_used(I, lambda: I.call(m, [], {}), [t.fields], K)
        cls = I.getattr_(I.getattr_(t, 'root'), '__class__')
        return long_used(I, lambda: I.call(cls, [], {}).fields['concept_id'],
                         [c.ns for c in cls.mro if isinstance(c, Class)], K)
    ok, bad = reporter(ctx, 'a number or name given out is never given out again', label, 'gensym')
    explore_into(ctx, prog, run, label, ok, bad)


def big_tasks(prog, whats):
    return [('long ' + w, lambda c, w=w: big_scen(c, prog, w)) for w in whats]


def check(ctx, prog):
    from ..par import run_tasks
    ctx.rule('structural comparison of a tree learned alone and one learned while other trees are created, used and cleared; state of a learned '
             'tree before and after using another one; transformed instances with and without earlier use')
    T = []
    for a in KINDS:
        for b in KINDS:
            T.append(('influence %s %s' % (a, b), lambda c, a=a, b=b: influence(c, prog, a, b)))
            T.append(('effect %s %s' % (a, b), lambda c, a=a, b=b: effect(c, prog, a, b)))
    for n in NAMED:
        T.append(('prep ' + n, lambda c, n=n: preps(c, prog, n)))
    run_tasks(ctx, T + big_tasks(prog, [k + ' concepts' for k in KINDS]))


# --------------------------------------------------------------------- C27
RULE27 = 'all randomness comes from the shared generator of the random module, which the library never resets'
# what would give the library randomness of its own, or take the user's away
RESET = {'random.seed', 'random.setstate'}
OWN = {'random.Random', 'random.SystemRandom', 'os.urandom', 'os.getrandom', 'uuid.uuid1', 'uuid.uuid4', 'numpy.random', 'secrets'}


def dotted(e, names):
    """The qualified name an expression stands for, through imports."""
    if isinstance(e, ast.Name):
        return names.get(e.id)
    if isinstance(e, ast.Attribute):
        b = dotted(e.value, names)
        return b + '.' + e.attr if b else None
    return None


def imports(tree):
    names = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    names[a.asname] = a.name
                else:
                    names[a.name.split('.')[0]] = a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                names[a.asname or a.name] = n.module + '.' + a.name
    # plain renamings of what was imported
    for n in ast.walk(tree):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            d = dotted(n.value, names)
            if d and n.targets[0].id not in names:
                names[n.targets[0].id] = d
    return names


def check_random(ctx, prog):
    import os
    from ..frontend import REPO
    ctx.rule('every name of every library module resolved through imports: no use of random.seed, random.setstate, generators of '
             'their own or other sources of randomness')
    base = os.path.join(REPO, 'concept_formation')
    files = [os.path.join(base, f) for f in sorted(os.listdir(base)) if f.endswith('.py')]
    files.append(os.path.join(base, 'data_files', 'generate_quadruped.py'))
    for p in files:
        if not os.path.exists(p):
            continue
        with open(p) as f:
            t = ast.parse(f.read())
        rel = os.path.relpath(p, REPO)
        names = imports(t)
        fn = {}
        for n in ast.walk(t):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for m in ast.walk(n):
                    fn[id(m)] = n.name
        ctx.functions |= {rel + ':' + v for v in set(fn.values())}
        for n in ast.walk(t):
            if not isinstance(n, (ast.Name, ast.Attribute)) or not isinstance(getattr(n, 'ctx', None), ast.Load):
                continue
            d = dotted(n, names)
            if not d:
                continue
            hit = None
            if d in RESET:
                hit = 'resets the generator of the caller'
            for o in OWN:
                if d == o or d.startswith(o + '.'):
                    hit = 'is a source of randomness the caller cannot seed'
            if hit:
                w = '%s:%d' % (rel, n.lineno)
                ctx.fail(w, RULE27, '%s %s in %s' % (d, hit, fn.get(id(n), 'the module')), {'function': fn.get(id(n), '')})
            elif d.startswith('random.'):
                ctx.ok()
                ctx.count(d)
        ctx.ok()
