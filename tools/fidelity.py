"""Development aid: does the abstract interpreter give small closed programs
the meaning CPython gives them?  (It runs snippets written here, never the
analysed library; no check depends on it.)

usage: fidelity.py [snippets.py ...]   each file defines functions t_*()"""
import importlib.util
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def canon(v):
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return repr(v)
    if isinstance(v, (int, float)):
        return '%.9g' % v
    if isinstance(v, list):
        return '[' + ', '.join(map(canon, v)) + ']'
    if isinstance(v, tuple):
        return '(' + ', '.join(map(canon, v)) + ')'
    if isinstance(v, dict):
        return '{' + ', '.join('%s: %s' % (canon(k), canon(x)) for k, x in v.items()) + '}'
    if isinstance(v, (set, frozenset)):
        return 'set{' + ', '.join(sorted(map(canon, v))) + '}'
    return '<%s>' % type(v).__name__


def main(files):
    from sa.frontend import Program
    from sa.interp import explore
    from sa.values import PyList, PyDict, PySet, PyObj, IterV, Inf, NaN

    def acanon(I, v):
        if isinstance(v, bool) or v is None or isinstance(v, str):
            return repr(v)
        if isinstance(v, Inf):
            return 'inf'
        if isinstance(v, NaN):
            return 'nan'
        if I.is_num(v):
            n = I.num(v)
            return '%.9g' % float(n.v)
        if isinstance(v, PyList):
            I.full(v)
            return '[' + ', '.join(acanon(I, x) for x in v._items) + ']'
        if isinstance(v, tuple):
            return '(' + ', '.join(acanon(I, x) for x in v) + ')'
        if isinstance(v, PyDict):
            return '{' + ', '.join('%s: %s' % (acanon(I, k), acanon(I, I.dget(v, k))) for k, _ in list(v.d.values())) + '}'
        if isinstance(v, PySet):
            return 'set{' + ', '.join(sorted(acanon(I, x) for x in v.d.values())) + '}'
        if isinstance(v, PyObj):
            return '<%s>' % v.cls.name
        return '<%s>' % type(v).__name__
    bad = und = good = 0
    for f in files:
        d = tempfile.mkdtemp(prefix='fid')
        try:
            os.makedirs(d + '/concept_formation')
            shutil.copy(f, d + '/concept_formation/snip.py')
            spec = importlib.util.spec_from_file_location('snip', d + '/concept_formation/snip.py')
            m = importlib.util.module_from_spec(spec)
            sys.dont_write_bytecode = True
            spec.loader.exec_module(m)
            prog = Program(d)
            for n in [n for n in dir(m) if n.startswith('t_')]:
                try:
                    want = canon(getattr(m, n)())
                except Exception as e:
                    want = 'raises ' + type(e).__name__
                outs = set()
                why = ''
                for r in explore(prog, lambda I: acanon(I, I.call(I.get('concept_formation.snip', n), [], {})), 200):
                    k, v = r.out
                    if k == 'undecided':
                        outs.add('UNDECIDED')
                        why = v
                    elif k == 'raise':
                        outs.add('raises ' + v.cls.name)
                    elif k == 'ok':
                        outs.add(v if not r.I.imprecise else 'UNDECIDED')
                if outs == {want}:
                    good += 1
                elif 'UNDECIDED' in outs:
                    und += 1
                    print('undecided', n, why[:150])
                else:
                    bad += 1
                    print('DIFFERS', n, '\n   python ', want, '\n   interp ', outs)
        finally:
            shutil.rmtree(d)
    print(good, 'agree', und, 'undecided', bad, 'differ')


if __name__ == '__main__':
    main(sys.argv[1:])
