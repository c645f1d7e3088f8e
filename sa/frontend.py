"""Parse the analysed source tree.  Nothing is imported or executed."""
import ast
import os

REPO = os.environ.get('SA_REPO', '/repo')
PKG = 'concept_formation'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODELS = os.path.join(HERE, 'models')


class Source(object):
    def __init__(self, name, path, rel):
        self.name = name
        self.path = path
        self.rel = rel
        with open(path, encoding='utf-8') as f:
            self.text = f.read()
        self.tree = ast.parse(self.text, filename=path)
        for n in ast.walk(self.tree):
            n._src = self


class Program(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.sources = {}
        base = os.path.join(self.repo, PKG)
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d not in ('tests', '__pycache__'))
            for f in sorted(fn):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(dp, f)
                rel = os.path.relpath(p, self.repo)
                mod = rel[:-3].replace(os.sep, '.')
                if mod.endswith('.__init__'):
                    mod = mod[:-9]
                self.sources[mod] = Source(mod, p, rel)
        self.models = {}
        for dp, dn, fn in os.walk(MODELS):
            for f in sorted(fn):
                if f.endswith('.py'):
                    p = os.path.join(dp, f)
                    rel = os.path.relpath(p, MODELS)
                    mod = rel[:-3].replace(os.sep, '.')
                    if mod.endswith('.__init__'):
                        mod = mod[:-9]
                    self.models[mod] = Source(mod, p, 'models/' + rel)

    def find(self, name):
        return self.sources.get(name) or self.models.get(name)

    def functions(self):
        """(module, qualname, node) for every def of the analysed package."""
        for m, s in self.sources.items():
            stack = [('', s.tree)]
            while stack:
                pre, n = stack.pop()
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        yield m, pre + c.name, c
                        stack.append((pre + c.name + '.', c))
                    elif isinstance(c, ast.ClassDef):
                        stack.append((pre + c.name + '.', c))
                    elif isinstance(c, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                        stack.append((pre, c))


def where(node):
    s = getattr(node, '_src', None)
    return '%s:%s' % (s.rel if s else '?', getattr(node, 'lineno', '?'))


_prog = None


def program():
    global _prog
    if _prog is None:
        _prog = Program()
    return _prog
