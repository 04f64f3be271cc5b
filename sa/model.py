"""Program model: modules, functions and classes of the package under analysis."""
import ast
import os


class AnalysisError(Exception):
    """the analysis itself cannot proceed (missing anchor, unparsable source)"""


class FnInfo:
    __slots__ = ('name', 'qual', 'node', 'module', 'owner', 'kind', 'defaults', 'is_gen', 'params', 'decos')

    def __init__(self, name, qual, node, module, owner=None):
        self.name = name
        self.qual = qual
        self.node = node
        self.module = module
        self.owner = owner
        self.kind = 'plain'
        self.is_gen = False
        self.decos = []
        if not isinstance(node, ast.Lambda):
            self.is_gen = _has_yield(node)

    def __repr__(self):
        return '<fn %s>' % self.qual

    @property
    def loc(self):
        return '%s:%d' % (self.module.rel, self.node.lineno)


def _has_yield(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class ClassInfo:
    __slots__ = ('name', 'qual', 'node', 'module', 'bases', 'mro', 'oid', 'is_enum', 'ext_bases', 'namedtuple')

    def __init__(self, name, qual, node, module):
        self.name = name
        self.qual = qual
        self.node = node
        self.module = module
        self.bases = []
        self.ext_bases = []
        self.mro = [self]
        self.oid = None
        self.is_enum = False
        self.namedtuple = None

    def __repr__(self):
        return '<class %s>' % self.qual

    def compute_mro(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        res = [self]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                break
            res.append(cand)
            for s in seqs:
                if s and s[0] is cand:
                    s.pop(0)
        self.mro = res


class Module:
    def __init__(self, name, path, rel, tree, src):
        self.name = name
        self.path = path
        self.rel = rel
        self.tree = tree
        self.src = src
        self.oid = None
        self.loaded = False
        self.loading = False


class Project:
    """all parsed sources of /repo/redeclipse"""

    def __init__(self, root='/repo', package='redeclipse'):
        self.root = root
        self.package = package
        self.modules = {}
        base = os.path.join(root, package)
        if not os.path.isdir(base):
            raise AnalysisError('package directory %s is missing' % base)
        for d, dirs, files in os.walk(base):
            dirs.sort()
            dirs[:] = [x for x in dirs if x != '__pycache__']
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                with open(p, encoding='utf-8') as h:
                    src = h.read()
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    raise AnalysisError('cannot parse %s: %s' % (rel, e))
                self.modules[name] = Module(name, p, rel, tree, src)

    def functions(self):
        n = 0
        for m in self.modules.values():
            for x in ast.walk(m.tree):
                if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                    n += 1
        return n
