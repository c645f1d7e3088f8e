"""C23: structured instances enter a Trestle tree through the standard pipeline, mapped to the current root."""
import itertools
from .. import num as N
from ..values import *
from ..harness import *
from .prep import reporter, call, names
from .mapper import opaque_cost, short_search, ren

RULE = 'what is learned or asked is the flattened instance with its objects mapped to the objects of the tree or to new names'
BASE = {'a': {'v': 'n', 'w': 'n'}, ('c', '?o1'): {'v': 'n', 'w': 'n'}, ('c', '?o2'): {'v': 'n'}, ('d', '?o1'): {'z': 'n'},
        ('has-component', '?o1', '?o2'): {True: 'n'}, '_h': {'w': 'n'}}
# instance, its flat form over generic object names P, Q, R (the objects in order of the first element)
CASES = {
    'plain': ({'a': 'v', '_h': 'w', 'b': True, 'o': {'k': 'v', '_l': 'u', 'i': {'j': 'w'}}}, (),
              {'a': 'v', '_h': 'w', 'b': True, ('k', 'o'): 'v', ('_', ('_l', 'o')): 'u', ('j', ('i', 'o')): 'w'}),
    'one': ({'a': 'v', '?p': {'c': 'v', 'in': {'k': 'u'}}, '_g': 'w'}, ('?p',),
            {'a': 'v', ('c', 'P'): 'v', ('k', ('in', 'P')): 'u', '_g': 'w'}),
    'same name': ({'?o1': {'c': 'v', 'e': 'u'}}, ('?o1',), {('c', 'P'): 'v', ('e', 'P'): 'u'}),
    'nested': ({'a': 'v', '?p': {'c': 'v', '?q': {'c': 'w', '_x': 'h'}}, ('near', '?p', ('?q', '?p')): 'yes'}, ('?p', '?q'),
               {'a': 'v', ('c', 'P'): 'v', ('c', 'Q'): 'w', ('_', ('_x', 'Q')): 'h', ('has-component', 'P', 'Q'): True,
                ('near', 'P', 'Q'): 'yes'}),
    'deep': ({'?p': {'k': {'?q': {'c': 'w'}}}}, ('?p', '?q'), {('has-component', ('k', 'P'), 'Q'): True, ('c', 'Q'): 'w'}),
    'held': ({'oo': {'?p': {'c': 'v'}, 'k': 'u'}}, ('?p',), {('has-component', 'oo', 'P'): True, ('c', 'P'): 'v', ('k', 'oo'): 'u'}),
    'two': ({'?p': {'c': 'v', 'm': 'u'}, '?q': {'c': 'v'}, ('left', '?q', ('of', '?p', 'k'), 'x'): 'yes'}, ('?p', '?q'),
            {('c', 'P'): 'v', ('m', 'P'): 'u', ('c', 'Q'): 'v', ('left', 'Q', ('of', 'P', 'k'), 'x'): 'yes'}),
}
BN = ('?o1', '?o2')


def trestle(I, kind, shape, counter=2):
    g = GTree(I, kind, BASE, depth=1, rest=False, shape=shape if kind != 'dummy' else False, budget=4)
    burn_names(I, g.tree, counter)
    return g


def table_names(keys):
    out = set()
    for k in keys:
        names(k, out)
    return out


def assignments(objs, seen, own):
    """All one-to-one renamings to names of the tree or names seen that are new."""
    new = sorted(n for n in seen if n not in BN and n not in own)
    for im in itertools.permutations(list(BN) + new, len(objs)):
        yield dict(zip('PQR', im))


def ref_inst(flat, s):
    return {ren(k, s): v for k, v in flat.items()}


def learn_scen(ctx, prog, kind, case, shape, kw):
    d, objs, flat = CASES[case]
    fn = 'ifit'
    label = 'ifit of a %s tree%s with %s' % (kind, ' with mapping' if kw else '', case)
    hits = {'mapped': 0, 'paths': 0}

    def run(I):
        quick_scores(I)
        opaque_whatif(I)
        opaque_cost(I)
        short_search(I)
        g = trestle(I, kind, shape)
        x = mk(I, d)
        I.call(I.getattr_(g.tree, fn), [x], dict(kw))
        st = stat_of(I, I.getattr_(g.tree, 'root'))
        seen = table_names(a for a, _ in st.t)
        asis = kind == 'dummy' and not kw
        for s in ([dict(zip('PQR', objs))] if asis else assignments(objs, seen, set(objs))):
            want = stat_comb(I, g.init[g.root.oid], instance_stat(I, ref_inst(flat, s), True))
            if same_stat(I, st, want):
                if asis or set(s.values()) & set(BN):
                    hits['mapped'] += 1
                hits['paths'] += 1
                return None
        gained = sorted({repr(a) for a, _ in st.t} - {repr(a) for a in BASE})
        return 'the root gains %s instead of the flattened instance' % gained
    ok, bad = reporter(ctx, RULE, label, fn)
    u0, v0 = sum(ctx.undecided.values()), len(ctx.violations)
    explore_into(ctx, prog, run, label, ok, bad)
    if objs and hits['paths'] and not hits['mapped'] and sum(ctx.undecided.values()) == u0 and len(ctx.violations) == v0:
        ctx.fail(fn, RULE, '%s: no object is ever mapped to an object of the tree' % label, {'function': fn})


def ask_scen(ctx, prog, case, fn):
    d, objs, flat = CASES[case]
    label = '%s with %s' % (fn, case)
    hits = {'mapped': 0, 'paths': 0, 'seen': 0}

    def run(I):
        quick_scores(I)
        opaque_cost(I)
        short_search(I)
        g = trestle(I, 'trestle', (False, False))
        got = []

        def ob(I, kind, f, env, r):
            if kind == 'enter':
                for v in env.values():
                    if isinstance(v, PyDict) and v.d:
                        ks = [k for k, _ in v.d.values()]
                        got.append({k: I.dget(v, k) for k in ks})
        for q in ('cobweb.CobwebNode', 'cobweb3.Cobweb3Node'):
            I.observers[PK + q + '.increment_counts'] = ob
            # what is predicted is not the question here
            I.intercepts[PK + q + '.predict'] = lambda I, f, a, k, n: 'z'
        r = I.call(I.getattr_(g.tree, fn), [mk(I, d)], {})
        if fn == 'infer_missing' and objs and isinstance(r, PyDict):
            # an attribute only an object of the tree has
            o = I.dget(r, objs[0], None, None)
            if isinstance(o, PyDict) and I.dget(o, 'd', None, None) == 'z':
                hits['mapped'] += 1
        hits['paths'] += 1
        for t in got:
            hits['seen'] += 1
            seen = table_names(t)
            for s in assignments(objs, seen, set(objs)):
                if ref_inst(flat, s) == t:
                    if set(s.values()) & set(BN):
                        hits['mapped'] += 1
                    break
            else:
                return 'the tree is asked about %r' % (t,)
        return None
    ok, bad = reporter(ctx, RULE, label, fn)
    u0, v0 = sum(ctx.undecided.values()), len(ctx.violations)
    explore_into(ctx, prog, run, label, ok, bad)
    if objs and hits['paths'] and not hits['mapped'] and sum(ctx.undecided.values()) == u0 and len(ctx.violations) == v0:
        if not hits['seen'] and fn != 'infer_missing':
            return ctx.undec('%s: the instance asked about is not observed' % label)
        ctx.fail(fn, RULE, '%s: no object is ever mapped to an object of the tree' % label, {'function': fn})


def history_scen(ctx, prog, kind, n):
    """Learning from an empty tree: names of objects over several instances."""
    label = '%d instances into a new %s tree' % (n, kind)
    hits = {'mapped': 0, 'paths': 0}
    kw = {'do_mapping': True} if kind == 'dummy' else {}

    def run(I):
        quick_scores(I)
        opaque_whatif(I)
        opaque_cost(I)
        short_search(I)
        t = new_tree(I, kind)
        known = set()
        st = None
        for i in range(n):
            x = mk(I, {'?p': {'c': 'v'}, 'a': 'v'} if i != 1 else {'?p': {'c': 'v', 'e': 'u'}, 'a': 'v'})
            if I.choose(2, 'asked before') and i == n - 1:
                I.call(I.getattr_(t, 'categorize'), [mk(I, {'?q': {'c': 'w'}})], {})
            I.call(I.getattr_(t, 'ifit'), [x], dict(kw))
            now = stat_of(I, I.getattr_(t, 'root'))
            flat = {('c', 'P'): 'v', 'a': 'v'}
            if i == 1:
                flat[('e', 'P')] = 'u'
            seen = table_names(a for a, _ in now.t)
            for o in sorted(seen):
                if o == '?p':
                    continue
                ins = instance_stat(I, ref_inst(flat, {'P': o}), True)
                want = ins if st is None else stat_comb(I, st, ins)
                if same_stat(I, now, want):
                    break
            else:
                return 'after instance %d the root holds objects %s' % (i + 1, sorted(seen))
            if i == n - 1:
                hits['paths'] += 1
                if o in known:
                    hits['mapped'] += 1
            known |= seen
            st = now
        return None
    ok, bad = reporter(ctx, RULE, label, 'ifit')
    u0, v0 = sum(ctx.undecided.values()), len(ctx.violations)
    explore_into(ctx, prog, run, label, ok, bad)
    if n > 1 and hits['paths'] and not hits['mapped'] and sum(ctx.undecided.values()) == u0 and len(ctx.violations) == v0:
        ctx.fail('ifit', RULE, '%s: no object is ever mapped to an object of the tree' % label, {'function': 'ifit'})


def check(ctx, prog):
    from ..par import run_tasks
    ctx.rule('the table of the root gains, on every path, the reference flat form of the instance under a one-to-one renaming into the '
             'object names of the root and new names; some path maps to the names of the root (otherwise mapping is impossible)')
    T = []
    for case in CASES:
        for shape in (False, (False, False)):
            T.append(('ifit %s %s' % (case, shape), lambda c, a=('trestle', case, shape, {}): learn_scen(c, prog, *a)))
        T.append(('dummy %s' % case, lambda c, a=('dummy', case, False, {'do_mapping': True}): learn_scen(c, prog, *a)))
        if case not in ('nested', 'deep', 'held'):
            T.append(('dummy as is %s' % case, lambda c, a=('dummy', case, False, {}): learn_scen(c, prog, *a)))
        for fn in ('categorize', 'infer_missing'):
            T.append(('%s %s' % (fn, case), lambda c, a=(case, fn): ask_scen(c, prog, *a)))
    for kind in ('trestle', 'dummy'):
        for n in (1, 2, 3):
            T.append(('history %s %d' % (kind, n), lambda c, a=(kind, n): history_scen(c, prog, *a)))
    from .isolate import big_tasks
    run_tasks(ctx, T + big_tasks(prog, ('trestle objects', 'dummy objects')))
