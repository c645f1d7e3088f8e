"""C10: clear() starts afresh.  C11: batch learning.  C12: invalid instances."""
import itertools
from .. import num as N
from ..values import *
from ..harness import *
from .scores import conv

KINDS = ('cobweb', 'cobweb3', 'trestle', 'dummy')
SPECN = {'a': {'v': 'n', 'w': 'n'}}
SPECX = {'a': {'v': 'n', 'w': 'n'}, 'x': {CV: CV}}


def struct(I, v, seen=None, d=0):
    """Structural value: objects by class and fields, ids left out."""
    seen = seen or {}
    if isinstance(v, PyObj):
        if v.oid in seen:
            return ('ref', seen[v.oid])
        seen = dict(seen)
        seen[v.oid] = len(seen)
        if isinstance(v.cls, Class) and d < 8:
            fs = []
            own = class_data(v)
            for f in sorted(list(v.fields) + list(own)):
                if f == 'concept_id':
                    continue
                x = own[f] if f in own else v.fields[f]
                if isinstance(x, Lazy):
                    x = I.getattr_(v, f)
                fs.append((f, struct(I, x, seen, d + 1)))
            return (v.cls.name, tuple(fs))
        return ('obj', v.oid)
    if isinstance(v, PyList):
        I.full(v)
        return ('l',) + tuple(struct(I, x.v if isinstance(x, Summ) else x, seen, d + 1) for x in v._items)
    if isinstance(v, tuple):
        return ('t',) + tuple(struct(I, x, seen, d + 1) for x in v)
    if isinstance(v, PyDict):
        return ('d', frozenset((struct(I, k, seen, d + 1), struct(I, I.dget(v, k), seen, d + 1))
                               for k, _ in list(v.d.values())))
    return deep(I, v)


RULEC = 'a cleared tree is a new tree with the same configuration'
CONF = {'cobweb': [{}], 'cobweb3': [{}, {'scaling': 0.25, 'inner_attr_scaling': False}, {'scaling': False}],
        'trestle': [{}, {'scaling': 0.25, 'inner_attr_scaling': False}, {'scaling': False}], 'dummy': [{}]}


def used_tree(I, kind, cfg, prefix='', shape=(False, False), cvlo=1):
    if kind == 'dummy':
        shape = False
    g = GTree(I, kind, SPECN if kind == 'cobweb' else SPECX, depth=2, rest=False, shape=shape, prefix=prefix,
              tree_kw=conv(cfg), cvlo=cvlo)
    if kind != 'cobweb':
        sc = tree_scales(I, g.tree)
        I.dset(sc, 'x', cv_object(I, N.atom(prefix + 'S.n', 30, 1e6), N.atom(prefix + 'S.s'), N.atom(prefix + 'S.q', 200),
                                  prefix + 'S'), raw=True)
    if kind in ('trestle', 'dummy'):
        burn_names(I, g.tree, 17)
    return g


def clear_scen(ctx, prog, kind, cfg):
    label = 'clear of a %s tree configured %s' % (kind, cfg)

    def run(I):
        quick_scores(I)
        opaque_whatif(I)
        g = used_tree(I, kind, cfg)
        old = list(g.nodes)
        twice = I.choose(2, 'already used')
        insts = [{'a': 'v', 'x': N.atom('i.x')} if kind != 'cobweb' else {'a': 'v'}, {'b': 'u', '_h': 'w'}]
        if twice:
            I.call(I.getattr_(g.tree, 'ifit'), [mkdict(I, insts[0])], {})
        I.call(I.getattr_(g.tree, 'clear'), [], {})
        fresh = new_tree(I, kind, **conv(cfg))
        s0, s1 = struct(I, g.tree), struct(I, fresh)
        # and it learns like a new one
        d = insts[I.choose(2, 'instance')]
        I.call(I.getattr_(g.tree, 'ifit'), [mkdict(I, d)], {})
        I.call(I.getattr_(fresh, 'ifit'), [mkdict(I, d)], {})
        return g, old, s0, s1, struct(I, g.tree), struct(I, fresh)

    def ok(I, v, r):
        g, old, s0, s1, l0, l1 = v

        def fail(msg):
            ctx.fail('clear (%s)' % kind, RULEC, '%s: %s' % (label, msg), {'choices': trace_of(r), 'function': 'clear'})
        if s0 != s1:
            return fail('the tree differs from a new one: %s' % sdiff(s0, s1))
        if l0 != l1:
            return fail('after learning one instance the tree differs from a new one: %s' % sdiff(l0, l1))
        ctx.ok(2)

    def bad(I, v, r):
        ctx.fail(v.fields.get('__where__', '?'), RULEC, '%s: raises %s(%s)' % (label, v.cls.name, desc(
            v.fields.get('args', ()))), {'choices': trace_of(r)})
    explore_into(ctx, prog, run, label, ok, bad)


def sdiff(a, b):
    try:
        fa, fb = dict(a[1]), dict(b[1])
        for k in sorted(set(fa) | set(fb)):
            if fa.get(k) != fb.get(k):
                return '%s is %s, not %s' % (k, str(fa.get(k))[:160], str(fb.get(k))[:160])
    except Exception:
        pass
    return '%s versus %s' % (str(a)[:160], str(b)[:160])


def check_clear(ctx, prog):
    from ..par import run_tasks
    ctx.rule('structural comparison of the abstract heap reachable from a used and cleared tree with that of a new tree of the '
             'same configuration, before and after one more learning step')
    T = []
    for kind in KINDS:
        for cfg in CONF[kind]:
            T.append(('%s %s' % (kind, cfg), lambda c, kind=kind, cfg=cfg: clear_scen(c, prog, kind, cfg)))
    run_tasks(ctx, T)


# --------------------------------------------------------------------- C11
RULEF = 'batch learning learns every instance once per iteration'


def fit_scen(ctx, prog, kind, n, its, rf, form, same=None):
    label = 'fit of %d %sinstances, %s iterations (%s)' % (n, {'object': 'repeated ', 'equal': 'equal ', 'empty': 'empty '}.get(same, ''), its, kind)
    names = [0, 0] + list(range(2, n)) if same == 'object' else list(range(n))

    def run(I):
        t = new_tree(I, kind)
        seq = []
        objs = [mkdict(I, {'a': 'v%d' % i}) for i in range(n)]
        if same == 'object':
            objs = objs[:1] * 2 + objs[2:]
        elif same == 'equal':
            objs = [mkdict(I, {'a': 'v'}) for i in range(n)]
        elif same == 'empty':
            objs = [mkdict(I, {}) for i in range(n)]

        def learn(I, f, args, kw, node):
            x = kw.get('instance') if 'instance' in kw else args[1]
            seq.append(next((i for i, o in enumerate(objs) if o is x), x))
            return I.getattr_(t, 'root')
        for q in ('cobweb.CobwebTree', 'cobweb3.Cobweb3Tree', 'trestle.TrestleTree', 'dummy.DummyTree'):
            I.intercepts[PK + q + '.ifit'] = learn
            I.intercepts[PK + q + '.cobweb'] = learn
        l = PyList(I, list(objs)) if form == 'list' else tuple(objs)
        kw = {}
        if its is not None:
            kw['iterations'] = its
        if rf is not None:
            kw['randomize_first'] = rf
        I.call(I.getattr_(t, 'fit'), [l], kw)
        after = [next((i for i, o in enumerate(objs) if o is x), None) for x in (l._items if form == 'list' else l)]
        return seq, after, [deep(I, o) for o in objs]

    orders, moved = set(), set()

    def ok(I, v, r):
        seq, after, vals = v
        k = 1 if its is None else its

        def fail(msg):
            ctx.fail('fit (%s)' % kind, RULEF, '%s: %s' % (label, msg), {'choices': trace_of(r), 'function': 'fit'})
        if after != names:
            return fail('the list passed in is reordered')
        if len(seq) != n * k:
            return fail('%d learning steps instead of %d' % (len(seq), n * k))
        for j in range(k):
            part = seq[j * n:(j + 1) * n]
            if sorted(map(str, part)) != sorted(map(str, names)):
                return fail('iteration %d learns %s' % (j + 1, part))
        if rf is False and k and seq[:n] != names:
            return fail('the first iteration does not follow the given order: %s' % (seq[:n],))
        orders.add(tuple(seq[:n]))
        moved.update((j, seq[j * n - n:j * n] != seq[j * n:j * n + n]) for j in range(1, k))
        ctx.ok()

    def bad(I, v, r):
        ctx.fail(v.fields.get('__where__', '?'), RULEF, '%s: raises %s(%s)' % (label, v.cls.name, desc(
            v.fields.get('args', ()))), {'choices': trace_of(r)})
    und, v0 = sum(ctx.undecided.values()), len(ctx.violations)
    explore_into(ctx, prog, run, label, ok, bad, max_paths=4000)
    if und == sum(ctx.undecided.values()) and v0 == len(ctx.violations) and rf is not False and n >= 2 and its != 0 and not same:
        if len(orders) == 1:
            ctx.fail('fit (%s)' % kind, 'the first iteration is shuffled unless told otherwise', '%s: the order is always %s' % (
                label, sorted(orders)), {'function': 'fit'})
    if und == sum(ctx.undecided.values()) and v0 == len(ctx.violations) and n >= 2 and not same:
        for j in range(1, its or 1):
            if (j, True) not in moved:
                ctx.fail('fit (%s)' % kind, 'later iterations are shuffled', '%s: iteration %d always repeats the order of the one '
                         'before' % (label, j + 1), {'function': 'fit'})


def check_fit(ctx, prog):
    from ..par import run_tasks
    ctx.rule('sequence of learning calls made by batch learning on every path: a permutation of the instances per iteration, '
             'in the given order first when not randomised')
    T = []
    for kind in KINDS:
        for n, its, rf, form in [(0, None, None, 'list'), (1, 3, None, 'list'), (2, None, None, 'list'), (2, 2, False, 'list'),
                                 (2, 3, True, 'tuple'), (3, 1, False, 'tuple'), (3, None, None, 'list'), (3, 2, False, 'list'),
                                 (2, 0, None, 'list')]:
            T.append(('%s %s %s %s' % (kind, n, its, rf),
                      lambda c, a=(kind, n, its, rf, form): fit_scen(c, prog, *a)))
        for same in ('object', 'equal', 'empty'):
            for n, its, rf in ((2, 1, False), (3, 2, False), (3, 1, None), (2, 2, True)):
                T.append(('%s %s %s %s %s' % (kind, n, its, rf, same),
                          lambda c, a=(kind, n, its, rf, 'list', same): fit_scen(c, prog, *a)))
    run_tasks(ctx, T)


# --------------------------------------------------------------------- C12
RULEV = 'an invalid instance is rejected with an error and nothing is changed'


def bad_instances(I, kind):
    L = lambda: PyList(I, ['p'])
    out = [('a list value', {'a': 'v', 'b': L()}), ('a list value first', {'b': L(), 'a': 'v'}),
           ('a set value', {'a': mk(I, {'q'})}), ('an attribute that cannot be indexed', {'a': 'v', 5: 'v'}),
           ('an empty attribute name', {'': 'v', 'a': 'w'}), ('a list value of a hidden attribute', {'a': 'v', '_h': L()}),
           ('only a list value', {'q': L()})]
    if kind in ('cobweb', 'cobweb3'):
        out += [('a missing value', {'a': None}), ('a missing value last', {'x': 1, 'a': 'v', 'b': None}),
                ('a missing hidden value', {'a': 'v', '_h': None}), ('a nested value', {'a': 'v', 'o': {'k': 'v'}}),
                ('a tuple holding a list', {'a': ('p', L())}), ('a list value of a relation', {('r', 'x'): L()})]
    else:
        out += [('a list inside a sub-object', {'a': 'v', '?o': {'k': L()}}),
                ('a relation over numbers', {'a': 'v', ('r', 1): 'v'}),
                ('a nested relation over numbers', {'a': 'v', ('r', ('s', 2, 'x')): 'v'}),
                ('a short nested relation over numbers', {'a': 'v', ('r', ('s', 2)): 'v'}),
                ('a relation over a number deep inside', {'a': 'v', ('r', 'x', ('s', ('t', 'y', 2.5))): 'v'}),
                ('a list value of a relation', {('r', 'x', 'y'): L()}),
                ('a list deep inside', {'?o': {'?p': {'k': L()}}})]
    return out


def invalid_scen(ctx, prog, kind, entry):
    label = '%s of a %s tree' % (entry, kind)

    def run(I):
        quick_scores(I)
        opaque_whatif(I)
        g = used_tree(I, kind, {})
        if I.choose(2, 'new tree') == 1:
            t = new_tree(I, kind)
            g = GTree(I, kind, {}, depth=0, rest=False, shape=False)
            g.root.fields['count'] = N.const(0)
            g.state0[g.root.oid] = node_state(I, g.root)
        bl = bad_instances(I, kind)
        what, d = bl[I.choose(len(bl), 'instance')]
        inst = mk(I, d)
        snap = deep(I, inst)
        t0 = tree_state(I, g.tree)
        for n in g.nodes:
            I.getattr_(n, 'children')
        kid0 = {n.oid: kid_ids(n.fields['children']._items) for n in g.nodes}
        exc = None
        try:
            if entry == 'fit':
                I.call(I.getattr_(g.tree, 'fit'), [PyList(I, [inst])], {})
            else:
                I.call(I.getattr_(g.tree, entry), [inst], {})
        except PyRaise as p:
            exc = p.exc
        return g, t0, kid0, what, exc, deep(I, inst) == snap

    def ok(I, v, r):
        g, t0, kid0, what, exc, kept = v

        def fail(msg):
            ctx.fail('%s (%s)' % (entry, kind), RULEV, '%s, %s: %s' % (label, what, msg), {
                'choices': trace_of(r), 'function': entry})
        if exc is None:
            return fail('is accepted')
        if kind in ('cobweb', 'cobweb3') and exc.cls.name != 'ValueError':
            return fail('is reported as %s' % exc.cls.name)
        if not kept:
            return fail('the instance is changed')
        g.kidsnap = kid0
        ch = changed(I, g, t0)
        if ch:
            return fail('is rejected only after changing %s' % ', '.join(ch[:3]))
        ctx.ok()
    explore_into(ctx, prog, run, label, ok)


def check_invalid(ctx, prog):
    from ..par import run_tasks
    ctx.rule('on every path with an invalid instance the entry point raises, and the abstract tree equals the one before')
    T = []
    for kind in KINDS:
        for entry in ('ifit', 'categorize', 'infer_missing', 'fit'):
            if kind == 'dummy' and entry == 'categorize':
                continue
            T.append(('%s %s' % (kind, entry), lambda c, kind=kind, entry=entry: invalid_scen(c, prog, kind, entry)))
    run_tasks(ctx, T)
