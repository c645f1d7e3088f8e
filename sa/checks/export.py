"""C25: reports describe the tree.  C26: visualisation.  C29: data sets."""
import ast
import json
import os
from .. import num as N
from ..values import *
from ..harness import *
from ..frontend import REPO
from .prep import reporter
from .own import nodes_of
from .scores import ustd, visible

RULE25 = 'reports describe the tree as it is'
SPEC = {'cobweb': {'a': {'v': 'n', 'w': 'n', True: 'n'}, ('r', '?o1'): {'u': 'n'}, '_h': {'v': 'n'}},
        'cobweb3': {'a': {'v': 'n', 'w': 'n'}, 'm': {'v': 'n', True: 'n', CV: CV}, ('r', '?o1'): {CV: CV},
                    '_h': {'v': 'n', CV: CV}, '_guid': {'g1': 'n', 'g2': 'n'}}}
SHAPE = ([[False, False], False], False, [False, False, False])
DEEP = (False, False)
for _ in range(7):
    DEEP = (list(DEEP), False)


def tree(I, kind, cvlo=30, shape=SHAPE):
    k = kind if kind == 'cobweb' else 'cobweb3'
    return GTree(I, kind, SPEC[k], depth=3 if shape is not DEEP else 12, rest=False, cvlo=cvlo,
                 shape=shape if kind != 'dummy' else False, budget=9 if shape is not DEEP else 30)


def ref_counts(I, st):
    t = {}
    for (a, v), x in st.t.items():
        sa = a if isinstance(a, str) else str(a)
        sv = v if isinstance(v, str) else str(v)
        t.setdefault(sa, {})[sv] = x
    return t


def cmp_export(I, j, n, g, kids=None):
    """Does the export j describe concept n?"""
    if not isinstance(j, PyDict):
        return 'the export of concept %s is %r' % (n.tag, j)
    st = g.init[n.oid]
    nm = I.dget(j, 'name', None, None)
    if nm != 'Concept%d' % n.fields['concept_id']:
        return 'concept %s is called %r' % (n.tag, nm)
    sz = I.dget(j, 'size', None, None)
    if not I.is_num(sz) or same(I, sz, st.count) is not True:
        return 'the size of concept %s is exported as %r' % (n.tag, sz)
    c = I.dget(j, 'counts', None, None)
    if not isinstance(c, PyDict):
        return 'the counts of concept %s are exported as %r' % (n.tag, c)
    want = ref_counts(I, st)
    have = {k: I.dget(c, k) for k, _ in list(c.d.values())}
    if set(map(str, have)) != set(want) or not all(isinstance(k, str) for k in have):
        return 'the attributes of concept %s are exported as %s instead of %s' % (
            n.tag, sorted(map(repr, have)), sorted(map(repr, want)))
    for a in want:
        h = have[a]
        if not isinstance(h, PyDict):
            return 'the values of %r are exported as %r' % (a, h)
        hv = {k: I.dget(h, k) for k, _ in list(h.d.values())}
        if set(hv) != set(want[a]):
            return 'the values of %r in concept %s are exported as %s instead of %s' % (
                a, n.tag, sorted(map(repr, hv)), sorted(map(repr, want[a])))
        for v, x in want[a].items():
            if len(x) == 3:
                t = tuple(map(I.num, x))
                m = hv[v]
                if not isinstance(m, PyDict):
                    return 'the numbers of %r are exported as %r' % (a, m)
                for f, w in (('n', t[0]), ('mean', N.div(t[1], t[0])), ('std', None)):
                    y = I.dget(m, f, None, None)
                    if not I.is_num(y):
                        return 'the %s of %r is exported as %r' % (f, a, y)
                    if w is None:
                        try:
                            w = ustd(I, *t)
                        except Unsupported:
                            continue
                    if same(I, y, w) is False:
                        return 'the %s of %r in concept %s is exported as %r' % (f, a, n.tag, y)
            elif not I.is_num(hv[v]) or same(I, hv[v], x[0]) is not True:
                return 'the count of %r = %s in concept %s is exported as %r' % (a, v, n.tag, hv[v])
    ch = I.dget(j, 'children', None, None)
    if not isinstance(ch, PyList):
        return 'the children of concept %s are exported as %r' % (n.tag, ch)
    I.full(ch)
    ks = list(I.getattr_(n, 'children')._items)
    if kids is not None:
        ks = kids(n, ks)
    if len(ks) != len(ch._items):
        return 'concept %s is exported with %d children instead of %d' % (n.tag, len(ch._items), len(ks))
    for x, y in zip(ch._items, ks):
        m = cmp_export(I, x, y, g, kids)
        if m:
            return m
    return None


def plain(I, j, where='export'):
    """Only what JSON can carry."""
    if isinstance(j, PyDict):
        for k, _ in list(j.d.values()):
            if not isinstance(k, (str, SStr)):
                return '%s has the key %r' % (where, k)
            m = plain(I, I.dget(j, k), '%s[%r]' % (where, k))
            if m:
                return m
        return None
    if isinstance(j, PyList):
        I.full(j)
        for x in j._items:
            m = plain(I, x, where)
            if m:
                return m
        return None
    if j is None or isinstance(j, (str, SStr, bool, int)) or I.is_num(j) and not isinstance(j, (Inf, NaN)):
        return None
    if isinstance(j, tuple):
        return None
    return '%s is %r' % (where, j)


def json_scen(ctx, prog, kind):
    label = 'output_json of a %s tree' % kind

    def run(I):
        g = tree(I, kind)
        ns = nodes_of(I, g.root)
        n = ns[I.choose(len(ns), 'concept')]
        j = I.call(I.getattr_(n, 'output_json'), [], {})
        m = plain(I, j) or cmp_export(I, j, n, g)
        if not m:
            j = I.call(I.getattr_(n, 'output_json'), [], {})
            m = cmp_export(I, j, n, g)
            m = m and 'exported again, ' + m
        return m
    ok, bad = reporter(ctx, RULE25, label, 'output_json')
    explore_into(ctx, prog, run, label, ok, bad)


def info_scen(ctx, prog, kind, shape=SHAPE):
    label = 'structure of a %s%s tree' % ('deep ' if shape is DEEP else '', kind)

    def run(I):
        g = tree(I, kind, shape=shape)
        ns = nodes_of(I, g.root)
        n = ns[I.choose(len(ns), 'concept')]
        up = [n]
        while up[-1].fields['parent'] is not None:
            up.append(up[-1].fields['parent'])
        call = lambda m, *a: I.call(I.getattr_(n, m), list(a), {})
        d = call('depth')
        if d != len(up) - 1:
            return 'the depth of concept %s is %r' % (n.tag, d)
        k = call('num_concepts')
        if k != len(nodes_of(I, n)):
            return 'concept %s counts %r concepts instead of %d' % (n.tag, k, len(nodes_of(I, n)))
        for o in ns:
            p = call('is_parent', o)
            up2 = [o]
            while up2[-1].fields['parent'] is not None:
                up2.append(up2[-1].fields['parent'])
            if bool(p) != any(x is n for x in up2):
                return 'is_parent of %s for %s is %r' % (n.tag, o.tag, p)
        have = {a for a, _ in g.init[n.oid].t}
        for args, want in (((), {a for a in have if visible(a)}), (('all',), have)):
            got = [x for x, _ in I.iterate(call('attrs', *args))]
            if len(got) != len(set(got)) or set(got) != want:
                return 'attrs%r of concept %s gives %s' % (args, n.tag, got)
        s = call('__str__')
        s2 = call('pretty_print')
        if s != s2:
            return 'str() and pretty_print differ'
        # one line per concept, indented by its depth below n
        text = s2 if isinstance(s2, str) else ''.join(p if isinstance(p, str) else '#' for p in s2.parts)
        lines = text.split('\n')
        if lines[-1] != '':
            return 'the printed tree does not end its last line'
        dep = []

        def walk(x, i):
            dep.append(i)
            for c in I.getattr_(x, 'children')._items:
                walk(c, i + 1)
        walk(n, 0)
        ind = [len(l) - len(l.lstrip('\t')) for l in lines[:-1]]
        if ind != dep:
            return 'the printed tree is indented %s instead of %s' % (ind, dep)
        if n is g.root:
            t = I.call(I.getattr_(g.tree, '__str__'), [], {})
            if t != s2:
                return 'the tree prints differently from its root'
        return None
    ok, bad = reporter(ctx, RULE25, label, 'CobwebNode')
    explore_into(ctx, prog, run, label, ok, bad)


def attrs_fn_scen(ctx, prog, kind):
    label = 'attrs with a filter (%s)' % kind

    def run(I):
        g = tree(I, kind, shape=(False, False))
        f = Builtin('filter', lambda I, a, k, n: a[0] in ('a', '_h'))
        got = [x for x, _ in I.iterate(I.call(I.getattr_(g.root, 'attrs'), [f], {}))]
        return None if set(got) == {'a', '_h'} and len(got) == 2 else 'gives %s' % (got,)
    ok, bad = reporter(ctx, RULE25, label, 'attrs')
    explore_into(ctx, prog, run, label, ok, bad)


VZ = PK + 'visualize'


def trim_scen(ctx, prog, kind, fn, args_only=False):
    label = '%s of a %s tree' % (fn, kind)

    def run(I):
        g = tree(I, kind)
        ns = nodes_of(I, g.root)
        # numbers of which one is the beginning or the end of another
        inner = [x for x in ns if I.getattr_(x, 'children')._items]
        ids = {True: [57, 5, 575, 55, 75], False: [7, 757, 77, 577, 557, 755, 775]}
        for i, x in enumerate(ns):
            l = ids[any(x is y for y in inner)]
            x.fields['concept_id'] = l.pop(0) if l else 800 + i
        kw = {'dst': '/out'}
        args = [g.tree]
        kids = None
        leaf = lambda x: not I.getattr_(x, 'children')._items

        def height(x):
            ch = I.getattr_(x, 'children')._items
            return 0 if not ch else 1 + max(height(c) for c in ch)
        if fn == 'visualize_no_leaves':
            c = I.choose(4, 'cuts')
            if c < 3:
                kw['cuts'] = c
            else:
                c = 1

            def cut(x, i):
                """Export tree after i cuts: children that still have children before the cut."""
                if i == 0:
                    return list(I.getattr_(x, 'children')._items)
                return [y for y in cut(x, i - 1) if cut(y, i - 1)]
            kids = lambda n, ks: cut(n, c)
        elif fn == 'visualize_clusters':
            c = I.choose(8, 'clusters')
            if c < 5:
                sel = [ns[i] for i in [(0,), (1, 5), (1, 3), (2, 4, 5), (len(ns) - 1,)][c] if i < len(ns)]
            else:
                sel = inner[c - 4:c - 3]
            if not sel:
                raise Prune('no clusters')
            form = I.choose(3, 'form')
            if form == 0:
                args.append(PyList(I, list(sel)))
            elif form == 1:
                args.append(PyList(I, ['Concept%d' % x.fields['concept_id'] for x in sel]))
            else:
                args.append(PyList(I, [x for y in sel for x in (y, y)]))
            kids = lambda n, ks: [] if any(n is s for s in sel) else ks
        if args_only:
            if I.choose(2, 'reversed'):
                args[1]._items.reverse()
            l0 = list(args[1]._items)
            I.call(I.get(VZ, fn), args, kw)
            I.full(args[1])
            if len(l0) != len(args[1]._items) or any(x is not y for x, y in zip(l0, args[1]._items)):
                return 'the list of clusters passed in is changed'
            return None
        I.call(I.get(VZ, fn), args, kw)
        js = [e for e in I.events if e[0] == 'json']
        if not js:
            raise Unsupported('the export is not written as JSON')
        if len(js) > 1:
            return '%d exports are written' % len(js)
        return plain(I, js[0][1]) or cmp_export(I, js[0][1], g.root, g, kids)
    ok, bad = reporter(ctx, 'what is shown is the tree, cut as asked', label, fn)
    explore_into(ctx, prog, run, label, ok, bad)


def check_report(ctx, prog):
    from ..par import run_tasks
    ctx.rule('exported structure compared field by field with the abstract tree; structural answers compared with the tree')
    T = []
    for kind in ('cobweb', 'cobweb3', 'trestle', 'dummy'):
        T.append(('json ' + kind, lambda c, kind=kind: json_scen(c, prog, kind)))
        T.append(('info ' + kind, lambda c, kind=kind: info_scen(c, prog, kind)))
        if kind != 'dummy':
            T.append(('deep ' + kind, lambda c, kind=kind: info_scen(c, prog, kind, DEEP)))
        T.append(('attrs ' + kind, lambda c, kind=kind: attrs_fn_scen(c, prog, kind)))
        for fn in ('visualize', 'visualize_no_leaves', 'visualize_clusters'):
            T.append((fn + ' ' + kind, lambda c, kind=kind, fn=fn: trim_scen(c, prog, kind, fn)))
    from .stale import tasks
    run_tasks(ctx, T + tasks(prog, ('num_concepts', 'depth', 'is_parent', 'output_json', 'attrs', 'pretty_print'), ('num_concepts', 'str')))


# --------------------------------------------------------------------- C26
RULE26 = 'visualisation writes exactly the page and the data, where it is told to'
PAGE = {'viz.html', 'viz_logic.js', 'viz_styling.css'}
MOD = '/PKG/concept_formation/visualization_files'


def files_scen(ctx, prog, fn):
    label = fn

    def run(I):
        g = tree(I, 'cobweb', shape=(False, False))
        kw = {}
        dst = ['/out', 'rel/dir', None][I.choose(3, 'dst')]
        if dst is not None:
            kw['dst'] = dst
        re = I.choose(3, 'recreate_html')
        if re < 2:
            kw['recreate_html'] = re == 0
        args = [g.tree] + ([PyList(I, [g.root])] if fn == 'visualize_clusters' else [])
        I.call(I.get(VZ, fn), args, kw)
        import posixpath
        norm = lambda p: posixpath.normpath(p)
        base = MOD if dst is None else dst
        wrote, copied, opened = [], [], []
        for e in I.events:
            if e[0] in ('write', 'copyfile', 'mkdir', 'delete', 'open', 'browser'):
                for p in e[1:3] if e[0] == 'copyfile' else e[1:2]:
                    if not isinstance(p, str):
                        raise Unsupported('a file name is not determined: %r' % (p,))
            if e[0] == 'delete':
                return 'the file %s is deleted' % e[1]
            if e[0] == 'mkdir':
                if norm(e[1]) != norm(base):
                    return 'the directory %s is created' % e[1]
            if e[0] == 'open' and isinstance(e[2], str) and any(c in e[2] for c in 'wax+'):
                wrote.append((norm(e[1]), e[2]))
            if e[0] == 'copyfile':
                copied.append((norm(e[1]), norm(e[2])))
            if e[0] == 'browser':
                opened.append(e[1])
        out = norm(posixpath.join(base, 'output.js'))
        for p, m in wrote:
            if p != out:
                return 'the file %s is written' % p
            if 'a' in m:
                return 'the data is appended to what is there'
        if not wrote:
            return 'the data is not written'
        # is there a page?  what was not looked at may or may not be there
        page = norm(posixpath.join(base, 'viz.html'))
        ex = None
        for k, v in I.memo.items():
            if isinstance(k, tuple) and k[0] == 'exists':
                try:
                    p = norm(ast.literal_eval(k[1]))
                except (ValueError, SyntaxError, TypeError):
                    raise Unsupported('existence of %s is asked for' % k[1])
                if p == page:
                    ex = v
                elif not v and page.startswith(p + '/'):
                    ex = False
        for s, d in copied:
            f = posixpath.basename(s)
            if f not in PAGE or posixpath.dirname(s) != MOD:
                return 'the file %s is copied' % s
            if dst is None:
                return 'files are copied to %s although no place was named' % d
            if d != norm(posixpath.join(base, f)) and d != norm(base):
                return 'the file %s is copied to %s' % (f, d)
        got = {posixpath.basename(s) for s, _ in copied}
        if dst is not None:
            if kw.get('recreate_html', True):
                if got != PAGE:
                    return 'the page is not complete: %s' % sorted(got)
            elif ex is True and got:
                return 'an existing page is replaced although it should be kept'
            elif ex is False and got != PAGE:
                return 'the missing page is not created'
            elif ex is None and any(e[0] == 'open' and norm(e[1]) == page for e in I.events):
                raise Unsupported('the page is looked for in another way')
            elif ex is None:
                return 'the page is %s without looking whether there is one' % ('created' if got else 'not created')
        ws = [e[2] for e in I.events if e[0] == 'write']
        txt = ws[0] if len(ws) == 1 else SStr([p for w in ws for p in (w.parts if isinstance(w, SStr) else (w,))])
        if isinstance(txt, SStr):
            js = [p for p in txt.parts if isinstance(p, tuple) and p[0] == 'json']
            rest = ''.join(p for p in txt.parts if isinstance(p, str))
            if len(js) != 1:
                return 'the data file does not contain the export once'
            if rest.replace(' ', '').replace('\n', '') != '(function(){window.trestle_output=;})();':
                raise Unsupported('the data file has another form')
        want = norm(posixpath.join('/CWD', base, 'viz.html'))
        for o in opened:
            if o.replace('file://', '') != want:
                return 'the page %s is shown' % o
        return None
    ok, bad = reporter(ctx, RULE26, label, fn)
    explore_into(ctx, prog, run, label, ok, bad)


def check_files(ctx, prog):
    from ..par import run_tasks
    ctx.rule('every file effect (open for writing, copy, mkdir, delete) on every path has a target determined by dst')
    run_tasks(ctx, [(fn, lambda c, fn=fn: files_scen(c, prog, fn)) for fn in (
        'visualize', 'visualize_no_leaves', 'visualize_clusters')])


# --------------------------------------------------------------------- C29
RULE29 = 'a loader returns the first instances of its data file'
LOAD = {'load_forest_fires': ('forest_fires.json', 517), 'load_congressional_voting': ('congressional_voting.json', 435),
        'load_iris': ('iris.json', 150), 'load_mushroom': ('mushrooms.json', 8124),
        'load_rb_com_11': ('rb_com_11_continuous.json', 251), 'load_rb_s_07': ('rb_s_07_continuous.json', 141),
        'load_rb_s_13': ('rb_s_13_continuous.json', 249), 'load_rb_wb_03': ('rb_wb_03_continuous.json', 254),
        'load_molecule': ('molecule.json', 101)}
DS = PK + 'datasets'
DD = '/PKG/concept_formation/data_files/'


class AllFiles(dict):
    """Any data file: three lines naming the file."""

    def __init__(self):
        dict.__init__(self)
        self.asked = []

    def __contains__(self, p):
        return isinstance(p, str)

    def __getitem__(self, p):
        if p not in self.asked:
            self.asked.append(p)
        return ['[{"file": "%s", "i": 0, "x": 1.5, "l": [1, "]"], "s": "a,]"},\n' % p,
                '{"file": "%s", "i": 1, "o": {"k": "v"}},\n' % p, '{"file": "%s", "i": 2, "last": "z"}]\n' % p]

    def get(self, p, d=None):
        return self[p]


def load_scen(ctx, prog, fn, file):
    label = fn

    def run(I):
        I.files = AllFiles()
        k = I.choose(6, 'number')
        args = [[], [0], [1], [2], [3], [9]][k]
        f = I.get(DS, fn)
        r = I.call(f, args, {})
        if not isinstance(r, PyList):
            raise Unsupported('instances have another form')
        I.full(r)
        w = DD + file
        ref = [{'file': w, 'i': 0, 'x': N.const(1.5), 'l': [1, ']'], 's': 'a,]'}, {'file': w, 'i': 1, 'o': {'k': 'v'}},
               {'file': w, 'i': 2, 'last': 'z'}]
        n = args[0] if args else 3
        if len(r._items) != min(n, 3):
            return '%s%r returns %d of 3 instances' % (fn, tuple(args), len(r._items))
        for i, x in enumerate(r._items):
            if deep(I, x) != deep(I, mk(I, ref[i])):
                return '%s%r returns %r as instance %d' % (fn, tuple(args), x, i)
        r2 = I.call(f, args, {})
        if r2 is r:
            return 'two calls return the same list'
        for x, y in zip(r._items, r2._items):
            if x is y:
                return 'two calls return the same instance'
        for e in I.events:
            if e[0] == 'open' and any(c in str(e[2]) for c in 'wax+'):
                return 'the file %s is written' % e[1]
        return None
    ok, bad = reporter(ctx, RULE29, label, fn)
    explore_into(ctx, prog, run, label, ok, bad)


def human_scen(ctx, prog):
    fn = 'load_rb_s_07_human_predictions'

    def run(I):
        w = DD + 'human_s_07_success_predictions.csv'
        I.files = {w: ['a,b\n', '1,2\n', '3,4 \n']}
        r = I.call(I.get(DS, fn), [], {})
        if not isinstance(r, PyList):
            raise Unsupported('rows have another form')
        return None if list(r._items) == ['a,b', '1,2', '3,4 '] else 'returns %r' % (r._items,)
    ok, bad = reporter(ctx, RULE29, fn, fn)
    explore_into(ctx, prog, run, fn, ok, bad)


def data_scen(ctx, prog):
    d = os.path.join(REPO, 'concept_formation', 'data_files')
    for fn, (file, n) in sorted(LOAD.items()):
        p = os.path.join(d, file)
        if not os.path.exists(p):
            ctx.fail('datasets.' + fn, 'the data file of a loader is part of the library', '%s is missing' % file, {
                'function': fn})
            continue
        bad = None
        k = 0
        with open(p) as f:
            for i, l in enumerate(f):
                k += 1
                try:
                    if not isinstance(json.loads(l.strip('[],\n')), dict):
                        bad = bad or 'line %d is no instance' % (i + 1)
                except ValueError:
                    bad = bad or 'line %d cannot be read' % (i + 1)
        if bad is None and k != n:
            bad = '%d instances instead of %d' % (k, n)
        if bad:
            ctx.fail('data_files/' + file, RULE29, '%s: %s' % (file, bad), {'function': fn})
        else:
            ctx.ok(k)


def quad_scen(ctx, prog):
    label = 'load_quadruped'

    def run(I):
        n = I.choose(3, 'number')

        def bell(I, f, args, kw, node):
            lo, hi = I.num(args[0]), I.num(args[1])
            return N.atom('bell%d' % len(log) if not log.append(1) else '', float(lo.c), float(hi.c))
        log = []
        I.intercepts[PK + 'data_files.generate_quadruped.bellrand'] = bell
        r = I.call(I.get(DS, 'load_quadruped'), [n], {})
        if not isinstance(r, PyList):
            raise Unsupported('instances have another form')
        I.full(r)
        if len(r._items) != n:
            return 'load_quadruped(%d) returns %d animals' % (n, len(r._items))
        for x in r._items:
            if not isinstance(x, PyDict):
                return 'an animal is %r' % (x,)
            t = I.dget(x, '_type', None, None)
            if t not in ('dog', 'cat', 'horse', 'giraffe'):
                return 'an animal is of type %r' % (t,)
            parts = {k for k, _ in x.d.values()} - {'_type'}
            if parts != {'torso', 'leg1', 'leg2', 'leg3', 'leg4', 'neck', 'head', 'tail'}:
                return 'a %s has the parts %s' % (t, sorted(parts))
            for q in parts:
                o = I.dget(x, q)
                if not isinstance(o, PyDict):
                    return 'the %s of a %s is %r' % (q, t, o)
                at = {k for k, _ in o.d.values()}
                if at != {'_type', 'locationX', 'locationY', 'locationZ', 'axisX', 'axisY', 'axisZ', 'height', 'radius', 'texture'}:
                    return 'the %s of a %s has the attributes %s' % (q, t, sorted(at))
                if I.dget(o, '_type') != q:
                    return 'the %s of a %s is of type %r' % (q, t, I.dget(o, '_type'))
        return None
    ok, bad = reporter(ctx, 'generated animals are complete', label, 'generate_animals')
    explore_into(ctx, prog, run, label, ok, bad)

    def run2(I):
        lo, hi = [(0.0, 1.0), (-1.0, 1.0), (170.0, 180.0)][I.choose(3, 'range')]

        class Draws(list):
            # a draw replaces the one before it: three in a row show all that a longer sequence can
            def append(self, e):
                if e[0] in ('normal', 'random') and len(self) > 2:
                    raise Prune('further draws')
                list.append(self, e)
        I.events = Draws(I.events)
        x = I.call(I.get(PK + 'data_files.generate_quadruped', 'bellrand'), [N.const(lo), N.const(hi)], {})
        a, b = I.cmp_rel(x, N.const(lo)), I.cmp_rel(x, N.const(hi))
        if '<' in a or '>' in b:
            return 'a value outside %s to %s can be drawn' % (lo, hi)
        return None
    ok, bad = reporter(ctx, 'drawn sizes lie in their range', 'bellrand', 'bellrand')
    explore_into(ctx, prog, run2, 'bellrand', ok, bad)


def check_data(ctx, prog):
    from ..par import run_tasks
    ctx.rule('loader results on an abstract data file for every number of instances; data files parsed line by line; '
             'generator results over all animals and draws')
    T = [(fn, lambda c, fn=fn: load_scen(c, prog, fn, LOAD[fn][0])) for fn in LOAD]
    T.append(('human', lambda c: human_scen(c, prog)))
    T.append(('data', lambda c: data_scen(c, prog)))
    T.append(('quad', lambda c: quad_scen(c, prog)))
    run_tasks(ctx, T)
