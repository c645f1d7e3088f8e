"""C32: answers depend only on what the tree knows now."""
from .. import num as N
from ..values import *
from ..harness import *
from .scores import Flat, A, A2, A3, X, X2, XM, conv, HIST, rstat
from .pure import node_queries, drain
from .own import nodes_of
from .life import KINDS
from .isolate import first_assignment, INS
from .mapper import opaque_cost, short_search
from .prep import reporter, call

RULE = 'an answer is the same whether or not questions were asked before'
TAB = {'cobweb': ([A, A2, A3], [A, A2]), 'cobweb3': ([X, X2, XM], [X, XM])}
# two_best_children and get_best_operation may break ties at random
SKIP = ('two_best_children', 'get_best_operation', 'shallow_copy', '__class__')


def alike(I, a, b, twin, d=0):
    """Are two answers the same, up to the identity of corresponding concepts?  True, False or None (not known)."""
    if d > 10:
        return None
    if I.is_num(a) or I.is_num(b) or isinstance(a, (Inf, NaN)):
        return same(I, a, b)
    if isinstance(a, PyObj) and isinstance(b, PyObj):
        if a.oid in twin or b.oid in twin.values():
            return twin.get(a.oid) == b.oid
        if 'meanSq' in a.fields and 'meanSq' in b.fields:
            return alls(alike(I, a.fields[f], b.fields[f], twin, d + 1) for f in ('num', 'mean', 'meanSq'))
        return alike(I, a.fields.get('count'), b.fields.get('count'), twin, d + 1) if a.cls is b.cls else False
    if isinstance(a, PyDict) and isinstance(b, PyDict):
        ka, kb = {deep(I, k): k for k, _ in a.d.values()}, {deep(I, k): k for k, _ in b.d.values()}
        if set(ka) != set(kb):
            return False
        return alls(alike(I, I.dget(a, k), I.dget(b, kb[x]), twin, d + 1) for x, k in ka.items() if k not in ('name', 'guid'))
    if isinstance(a, (PyList, tuple, IterV)) and isinstance(b, (PyList, tuple, IterV)):
        xa, xb = [x for x, _ in I.iterate(a)], [x for x, _ in I.iterate(b)]
        if len(xa) != len(xb):
            return False
        return alls(alike(I, x, y, twin, d + 1) for x, y in zip(xa, xb))
    return deep(I, a) == deep(I, b)


def alls(it):
    r = list(it)
    return False if False in r else (None if None in r else True)


def ask(I, n, name, args):
    try:
        r = I.call(I.getattr_(n, name), args, {})
        return tuple(x for x, _ in I.iterate(r)) if isinstance(r, IterV) else r
    except PyRaise as e:
        return 'raises ' + e.exc.cls.name


def change(I, kind, F, hist):
    n, kids = F.n, F.kids
    m = lambda o, f, *a: I.call(I.getattr_(o, f), list(a), {})
    e = {'a': 'v', 'c': 'new', '_h': 'q'} if kind == 'cobweb' else {'a': 'w', 'x': N.atom('j.x'), 'y': N.atom('j.y'), '_h': 'q'}
    new = []
    if hist == 'increment':
        for o in (n, kids[1][0]):
            m(o, 'increment_counts', mkdict(I, e))
    elif hist == 'add counts':
        o = F.node('o', rstat(I, 'o', TAB[kind][0][0], 'big'))
        for k in (n, kids[1][0]):
            m(k, 'update_counts_from_node', o)
    elif hist == 'new child':
        m(n, 'increment_counts', mkdict(I, e))
        new.append(m(n, 'create_new_child', mkdict(I, e)))
        m(kids[1][0], 'create_child_with_current_counts')
    elif hist == 'merge':
        new.append(m(n, 'merge', kids[0][0], kids[1][0]))
    elif hist == 'split':
        m(n, 'split', kids[0][0])
    else:
        if kind == 'cobweb':
            raise Prune()
        cv = I.dget(tree_scales(I, F.tree), 'x', None, None)
        m(cv, 'update', N.atom('t.x'))
        mq = cv.fields.get('meanSq')
        if isinstance(mq, N.Num):
            mq.lo = max(mq.lo, 1.0)         # it only grows (C13)
    return new


def scen_node(ctx, prog, kind, name, argfs, hist):
    label = '%s of a %s concept asked before and after %s' % (name, kind, hist)

    def run(I):
        I.intercepts[PK + 'utils.most_likely_choice'] = lambda I, f, a, k, nd: drain(I, a[0])._items[0][0]
        specs, grand = TAB[kind]
        if name == 'log_likelihood':    # few values: every one may have probability 0
            specs, grand = [specs[1], specs[1], specs[0]], None
        kw = {'tree_kw': conv({'scaling': 0.5}), 'scales': {'x': 'big'}} if kind != 'cobweb' else {}
        if hist == 'split' and not grand:
            raise Prune()
        F, G = Flat(I, kind, specs, None, grand, **kw), Flat(I, kind, specs, None, grand, **kw)
        twin = {a.oid: b.oid for a, b in zip(F.nodes, G.nodes)}
        af = argfs[I.choose(len(argfs), 'arguments')]
        i = [0, 2, 4][I.choose(3 if name in ('depth', 'num_concepts', 'is_parent', 'output_json', 'expected_correct_guesses') else 2, 'node')]
        if name == 'log_likelihood' and i:
            raise Prune()
        if name in ('cu_for_merge', 'cu_for_split', 'cu_for_insert', 'relative_cu_for_insert') and i:
            raise Prune()
        if name == 'predict' and len(af(I, F)) > 1:
            raise Prune()               # a random draw
        ask(I, F.nodes[i], name, list(af(I, F)))
        for a, b in zip(change(I, kind, F, hist), change(I, kind, G, hist)):
            twin[a.oid] = b.oid
        x = ask(I, F.nodes[i], name, list(af(I, F)))
        y = ask(I, G.nodes[i], name, list(af(I, G)))
        r = alike(I, x, y, twin)
        if r is None:
            raise Unsupported('equal only under path conditions')
        return None if r else 'it answers %r, without the question before %r' % (x, y)
    ok, bad = reporter(ctx, RULE, label, name)
    explore_into(ctx, prog, run, label, ok, bad)


# --------------------------------------------------------------- whole trees
def congruent(I, table):
    """Scores are an arbitrary function of the concepts and instances asked
    about, without ties."""
    def content(v, d=0):
        if isinstance(v, PyObj) and 'av_counts' in v.fields:
            return ('node', deep(I, v.fields['count']), deep(I, I.getattr_(v, 'av_counts')),
                    tuple(content(c, d + 1) for c, _ in I.iterate(I.getattr_(v, 'children'))))
        return deep(I, v)

    def mk(m):
        def f(I, fn, args, kw, node):
            key = (m,) + tuple(content(a) for a in args) + tuple(sorted((k, content(v)) for k, v in kw.items()))
            if key not in table:
                up = I.choose(2, 'score') if len(table) < 4 else len(table) % 3 == 0
                table[key] = N.const((1 if up else -1) * (len(table) + 1))
            return table[key]
        return f
    for q in ('cobweb.CobwebNode', 'cobweb3.Cobweb3Node'):
        for m in ('expected_correct_guesses',) + WHATIF:
            I.intercepts[PK + q + '.' + m] = mk(m)


def proj(I, t):
    """What a tree knows: counts and hierarchy, attribute scales."""
    def node(n):
        return (deep(I, n.fields['count']), deep(I, I.getattr_(n, 'av_counts')),
                tuple(node(c) for c, _ in I.iterate(I.getattr_(n, 'children'))))
    s = tree_scales(I, t) if 'scaling' in t.fields else None
    return node(I.getattr_(t, 'root')), deep(I, s) if s is not None else None


def place(I, t, n):
    l = nodes_of(I, I.getattr_(t, 'root'))
    if not any(x is n for x in l):
        return 'a concept that is not in the tree'
    return deep(I, n.fields['count']), deep(I, I.getattr_(n, 'av_counts')), deep(I, call(I, n, 'depth'))


def q_categorize(I, t, d):
    return ('concept', place(I, t, call(I, t, 'categorize', mk(I, d))))


def q_infer(I, t, d):
    return deep(I, call(I, t, 'infer_missing', mk(I, d)))


def q_prob(I, t, d):
    v = I.call(I.get(PK + 'evaluation', 'probability'), [t, mk(I, d), 'a', 'v'], {})
    return deep(I, v)


def q_depth(I, t, d):
    ids = {}
    for n in nodes_of(I, I.getattr_(t, 'root')):
        ids['Concept%s' % n.fields['concept_id']] = place(I, t, n)
    r = I.call(I.get(PK + 'cluster', 'depth_labels'), [t, PyList(I, [mk(I, d)])], {'mod': False})
    return tuple(tuple(ids.get(y, 'unknown label') for y, _ in I.iterate(x)) for x, _ in I.iterate(r))


def q_size(I, t, d):
    return deep(I, call(I, I.getattr_(t, 'root'), 'num_concepts'))


def q_str(I, t, d):
    return deep(I, call(I, t, '__str__'))


TQ = {'categorize': q_categorize, 'infer_missing': q_infer, 'evaluation.probability': q_prob, 'depth_labels': q_depth,
      'num_concepts': q_size, 'str': q_str}
ASK = {'cobweb': [{'a': 'v'}, {'b': 'u'}], 'cobweb3': [{'a': 'v'}, {'x': 2}], 'trestle': [{'a': 'v'}, {'?z': {'c': 'v'}, '?y': {'c': 'w', 'e': 'v'}}],
       'dummy': [{'a': 'v'}, {'x': 3}]}
INS = dict(INS, trestle=[{'a': 'v', 'x': 3, '?p': {'c': 'v'}}, {'a': 'v', '?q': {'c': 'w', 'y': 1}, '?s': {'e': 'v'}}])
WHEN = ('learning', 'learning twice', 'clearing', 'clearing and learning', 'batch learning')


def scen_tree(ctx, prog, kind, name):
    label = '%s of a %s tree' % (name, kind)

    def run(I):
        table = {}
        congruent(I, table)
        opaque_cost(I)
        short_search(I)
        first_assignment(I)
        I.intercepts[PK + 'utils.most_likely_choice'] = lambda I, f, a, k, nd: drain(I, a[0])._items[0][0]
        q = TQ[name]
        d = ASK[kind][I.choose(len(ASK[kind]), 'instance')]
        how = WHEN[I.choose(len(WHEN), 'between')]
        ts = [new_tree(I, kind), new_tree(I, kind)]
        out = []
        for j, t in enumerate(ts):
            step = [0]

            def asking():
                if j == 0:
                    try:
                        q(I, t, d)
                    except PyRaise:
                        pass
                # questions may use up object names
                step[0] += 20
                if 'gensym_counter' in t.fields:
                    t.fields['gensym_counter'] = step[0]
            asking()
            call(I, t, 'ifit', mk(I, INS[kind][0]))
            asking()
            if how in ('learning', 'learning twice'):
                call(I, t, 'ifit', mk(I, INS[kind][1]))
                if how == 'learning twice':
                    asking()
                    call(I, t, 'ifit', mk(I, INS[kind][0]))
            elif how == 'clearing':
                call(I, t, 'clear')
            elif how == 'clearing and learning':
                call(I, t, 'clear')
                asking()
                call(I, t, 'ifit', mk(I, INS[kind][1]))
            else:
                I.call(I.getattr_(t, 'fit'), [PyList(I, [mk(I, INS[kind][1])])], {'randomize_first': False})
            step[0] += 20
            if 'gensym_counter' in t.fields:
                t.fields['gensym_counter'] = step[0]
            try:
                a = q(I, t, d)
            except PyRaise as e:
                a = 'raises ' + e.exc.cls.name
            out.append((proj(I, t), a))
        if out[0] != out[1] and kind in ('trestle', 'dummy') and 'gensym_counter' not in ts[0].fields:
            raise Unsupported('object names are handed out in another way')
        if out[0][0] != out[1][0]:
            return 'the tree learns differently when asked before'
        if out[0][1] != out[1][1]:
            return 'after %s it answers %s, without the question before %s' % (how, str(out[0][1])[:200], str(out[1][1])[:200])
        return None
    ok, bad = reporter(ctx, RULE, label, name)
    explore_into(ctx, prog, run, label, ok, bad)


def check(ctx, prog):
    from ..par import run_tasks
    ctx.rule('two abstract copies of every concept and tree, the same change made to both, the question asked before on only one of them: '
             'the answers afterwards have the same value')
    run_tasks(ctx, tasks(prog))


def tasks(prog, names=None, trees=None):
    """The scenarios for some or all questions."""
    T = []
    for kind in ('cobweb', 'cobweb3'):
        for name, af in node_queries(kind):
            if name in SKIP or (names is not None and name not in names):
                continue
            for h in HIST:
                T.append(('again: node %s %s %s' % (kind, name, h), lambda c, a=(kind, name, af, h): scen_node(c, prog, *a)))
    for kind in KINDS:
        for name in TQ:
            if trees is None or name in trees:
                T.append(('again: tree %s %s' % (kind, name), lambda c, a=(kind, name): scen_tree(c, prog, *a)))
    return T
