"""Binding of names: every name, attribute and call of the package that can be resolved from the source refers to something that is there."""
import ast
import builtins
import importlib
import sys
import types
from ..model import Project, AnalysisError

OPEN = object()
BUILTIN = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__', '__builtins__', '__loader__', '__class__', '__annotations__'}
FN = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPES = FN + (ast.Lambda,)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


class Cls:
    def __init__(self, node, mod, outer):
        self.node, self.mod, self.outer = node, mod, outer
        self.name = node.name
        self.qual = '%s:%s' % (mod.name, node.name)
        self.body = {}          # name -> node of the definition or None
        self.inst = set()
        self.bases, self.mro = [], [self]
        self.ext = []           # names of outside bases, OPEN if unknown
        self.subs = []
        self.open = False
        self.leaks = False      # an object of it is given to a function by itself
        self.special = None     # enum, namedtuple, dataclass

    def find(self, name):
        for c in self.mro:
            if name in c.body:
                return c, c.body[name]
        return None, None


class Fn:
    def __init__(self, node, mod, cls=None):
        self.node, self.mod, self.cls = node, mod, cls
        self.name = node.name
        self.kind = 'plain'
        self.strange = False
        for d in node.decorator_list:
            n = d.id if isinstance(d, ast.Name) else None
            if n == 'staticmethod':
                self.kind = 'static'
            elif n == 'classmethod':
                self.kind = 'class'
            else:
                self.strange = True


class Mod:
    def __init__(self, m):
        self.m = m
        self.name, self.rel, self.tree = m.name, m.rel, m.tree
        self.ns = {}            # name -> list of definitions
        self.open = False
        self.package = m.path.endswith('__init__.py')


def assigned(t):
    """names bound by a target"""
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            yield from assigned(x)
    elif isinstance(t, ast.Starred):
        yield from assigned(t.value)


def blocks(s):
    """statements below a statement in the same scope"""
    for f in ('body', 'orelse', 'finalbody'):
        yield from getattr(s, f, []) or []
    for h in getattr(s, 'handlers', []) or []:
        yield from h.body
    for c in getattr(s, 'cases', []) or []:
        yield from c.body


def own(node):
    """all nodes of a scope without those of the scopes in it (these are given themselves)"""
    stack = list(ast.iter_child_nodes(node)) if not isinstance(node, list) else list(node)
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, SCOPES):
            stack.extend(getattr(x, 'decorator_list', []))
            stack.extend(x.args.defaults)
            stack.extend(d for d in x.args.kw_defaults if d is not None)
        elif isinstance(x, ast.ClassDef):
            stack.extend(x.decorator_list)
            stack.extend(x.bases)
            stack.extend(k.value for k in x.keywords)
        else:
            stack.extend(ast.iter_child_nodes(x))


def params(a):
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


class Names:
    def __init__(self, ctx):
        self.ctx = ctx
        self.p = Project(ctx.repo)
        self.mods = {n: Mod(m) for n, m in self.p.modules.items()}
        self.classes = {}
        self.stored = set()     # attributes stored anywhere on objects whose class is not known
        self.every = set()
        self.texts = set()
        self.made = False       # classes are made with type(name, bases, body)
        self.uses = 0
        for m in self.mods.values():
            self.top(m, m.tree.body)
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Global):
                    for n in x.names:
                        m.ns.setdefault(n, []).append(('var', None))
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('globals', 'exec', 'eval'):
                    m.open = True
                if isinstance(x, ast.Attribute) and x.attr == 'modules' and isinstance(x.value, ast.Name) and x.value.id == 'sys':
                    m.open = True
            if '__getattr__' in m.ns:
                m.open = True
        for m in self.mods.values():
            for x in ast.walk(m.tree):
                if isinstance(x, ast.ClassDef):
                    self.cls(x, m)
        for c in self.classes.values():
            self.link(c)
        for c in self.classes.values():
            self.linearise(c)
        for c in self.classes.values():
            for b in c.mro[1:]:
                b.subs.append(c)
        for m in self.mods.values():
            self.stores(m)
        self.universe()

    # ------------------------------------------------------------ tables
    def top(self, m, body):
        for s in body:
            if isinstance(s, FN):
                m.ns.setdefault(s.name, []).append(('fn', Fn(s, m)))
            elif isinstance(s, ast.ClassDef):
                m.ns.setdefault(s.name, []).append(('class', s))
            elif isinstance(s, ast.Import):
                for a in s.names:
                    m.ns.setdefault(a.asname or a.name.split('.')[0], []).append(('import', a.name if a.asname else a.name.split('.')[0]))
            elif isinstance(s, ast.ImportFrom):
                src = self.source(m, s)
                for a in s.names:
                    if a.name == '*':
                        m.ns.setdefault('*', []).append(('star', src))
                    else:
                        m.ns.setdefault(a.asname or a.name, []).append(('from', (src, a.name)))
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in assigned(t):
                        m.ns.setdefault(n, []).append(('var', s.value if isinstance(t, ast.Name) else None))
            elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
                for n in assigned(s.target):
                    m.ns.setdefault(n, []).append(('var', s.value if isinstance(s, ast.AnnAssign) else None))
            else:
                if isinstance(s, (ast.For, ast.AsyncFor)):
                    for n in assigned(s.target):
                        m.ns.setdefault(n, []).append(('var', None))
                if isinstance(s, (ast.With, ast.AsyncWith)):
                    for i in s.items:
                        if i.optional_vars is not None:
                            for n in assigned(i.optional_vars):
                                m.ns.setdefault(n, []).append(('var', None))
                for h in getattr(s, 'handlers', []) or []:
                    if h.name:
                        m.ns.setdefault(h.name, []).append(('var', None))
                self.top(m, list(blocks(s)))
            for x in own([s]):
                if isinstance(x, ast.NamedExpr):
                    m.ns.setdefault(x.target.id, []).append(('var', None))

    def source(self, m, s):
        if not s.level:
            return s.module
        parts = m.name.split('.')
        if not m.package:
            parts = parts[:-1]
        parts = parts[:len(parts) - (s.level - 1)]
        return '.'.join(parts + ([s.module] if s.module else []))

    def cls(self, node, m):
        c = Cls(node, m, None)
        self.classes[id(node)] = c
        self.class_body(c, node.body)
        for d in node.decorator_list:
            n = d.func if isinstance(d, ast.Call) else d
            n = n.attr if isinstance(n, ast.Attribute) else getattr(n, 'id', None)
            if n == 'dataclass':
                c.special = 'dataclass'
            elif n not in ('total_ordering', 'unique'):
                c.open = True
        if node.keywords:
            c.open = True
        if any(n in c.body for n in ('__getattr__', '__getattribute__')):
            c.open = True

    def class_body(self, c, body):
        for s in body:
            if isinstance(s, FN):
                c.body[mangle(s.name, c)] = Fn(s, c.mod, c)
            elif isinstance(s, ast.ClassDef):
                c.body[s.name] = s
            elif isinstance(s, (ast.Import, ast.ImportFrom)):
                for a in s.names:
                    c.body[a.asname or a.name.split('.')[0]] = None
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in assigned(t):
                        c.body[mangle(n, c)] = s.value
                    if isinstance(t, ast.Subscript):
                        c.open = True
            elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
                for n in assigned(s.target):
                    c.body[n] = None
            else:
                if isinstance(s, (ast.For,)):
                    for n in assigned(s.target):
                        c.body[n] = None
                if isinstance(s, ast.With):
                    for i in s.items:
                        for n in assigned(i.optional_vars) if i.optional_vars is not None else ():
                            c.body[n] = None
                self.class_body(c, list(blocks(s)))
            if isinstance(s, ast.Expr) and any(isinstance(x, ast.Call) and getattr(x.func, 'id', None) in ('locals', 'vars', 'exec') for x in ast.walk(s)):
                c.open = True

    def link(self, c):
        for b in c.node.bases:
            k, v = self.value(b, Scope(self, c.mod, None, None))
            if k == 'class':
                c.bases.append(v)
            elif k == 'ext':
                last = v.split('.')[-1]
                if last in ('Enum', 'IntEnum', 'Flag', 'IntFlag'):
                    c.special = 'enum'
                    c.ext.append(v)
                elif v in ('object', 'builtins.object'):
                    pass
                elif isinstance(getattr(builtins, last, None), type) and v == last:
                    c.ext.append(v)
                else:
                    c.open = c.outer = True
            else:
                c.open = True

    def linearise(self, c, depth=0):
        if getattr(c, 'done', False) or depth > 50:
            return
        c.done = True
        for b in c.bases:
            self.linearise(b, depth + 1)
        seqs = [list(b.mro) for b in c.bases] + [list(c.bases)]
        res = [c]
        while any(seqs):
            seqs = [s for s in seqs if s]
            cand = next((s[0] for s in seqs if not any(s[0] in t[1:] for t in seqs)), seqs[0][0])
            res.append(cand)
            seqs = [[x for x in s if x is not cand] for s in seqs]
        c.mro = res
        c.open = c.open or any(b.open for b in res)
        for b in res[1:]:
            c.special = c.special or b.special
            c.ext += [e for e in b.ext if e not in c.ext]

    def stores(self, m):
        """attributes that are stored somewhere"""
        for cls, fn in functions(m.tree, self):
            first = None
            if cls is not None and fn is not None and isinstance(fn, FN) and fn.args.args and not any(getattr(d, 'id', None) == 'staticmethod' for d in fn.decorator_list):
                first = fn.args.args[0].arg
            for x in ast.walk(fn) if fn is not None else own(m.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    name = x.attr
                    if cls is not None and name.startswith('__') and not name.endswith('__'):
                        name = '_%s%s' % (cls.name.lstrip('_'), name)
                    if isinstance(x.value, ast.Name) and x.value.id == first:
                        cls.inst.add(name)
                    else:
                        self.stored.add(name)
                        k, v = self.value(x.value, Scope(self, m, None, None))
                        if k == 'mod':
                            self.mods[v].ns.setdefault(name, []).append(('var', None))
                        elif k == 'class':
                            v.body.setdefault(name, None)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'type' and len(x.args) == 3 or isinstance(x, ast.Attribute) and x.attr == 'new_class':
                    self.made = True
                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                    self.texts.add(x.value)
                if isinstance(x, ast.Call) and first is not None and any(isinstance(a, ast.Name) and a.id == first for a in x.args + [k.value for k in x.keywords]):
                    cls.leaks = True
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'setattr' and len(x.args) == 3:
                    if isinstance(x.args[1], ast.Constant):
                        self.stored.add(x.args[1].value)
                    elif cls is not None and isinstance(x.args[0], ast.Name) and x.args[0].id == first:
                        for c in [cls] + cls.subs:
                            c.open = True
                    else:
                        k, v = self.value(x.args[0], Scope(self, m, cls, fn) if isinstance(fn, FN) else Scope(self, m, None, None))
                        for c in [v] + v.subs if k in ('inst', 'class', 'self', 'kind') else ():
                            c.open = True
                if isinstance(x, (ast.Attribute,)) and x.attr == '__dict__' and cls is not None:
                    for c in [cls] + cls.subs:
                        c.open = True
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'vars' and cls is not None and x.args:
                    for c in [cls] + cls.subs:
                        c.open = True

    def universe(self):
        u = self.every
        import io, collections, logging, argparse, struct, re, random, pathlib, fractions, types, gzip, zipfile, datetime, enum
        for t in (object, str, bytes, bytearray, int, float, complex, list, tuple, dict, set, frozenset, range, slice, type, BaseException, OSError, memoryview, property, io.TextIOWrapper, io.BufferedReader,
                  io.BufferedWriter, io.BytesIO, io.StringIO, collections.OrderedDict, collections.defaultdict, collections.Counter, collections.deque, logging.Logger, logging.LogRecord, argparse.ArgumentParser, struct.Struct,
                  re.Pattern, re.Match, random.Random, pathlib.Path, fractions.Fraction, types.ModuleType, types.FunctionType, types.MethodType, types.GeneratorType, types.TracebackType, gzip.GzipFile, zipfile.ZipFile,
                  datetime.datetime, enum.Enum, enum.EnumMeta):
            u |= set(dir(t))
        seen = set()
        for m in self.mods.values():
            for x in ast.walk(m.tree):
                names = [a.name for a in x.names] if isinstance(x, ast.Import) else [x.module] if isinstance(x, ast.ImportFrom) and not x.level and x.module else []
                seen |= {n for n in names if n.split('.')[0] in sys.stdlib_module_names}
        for n in sorted(seen | {'types', 'io', 'threading', 'socket', 'subprocess', 'queue', 'selectors', 'xml.dom.minidom', 'xml.etree.ElementTree'}):
            o = real(n)
            if o is not None:
                u |= set(dir(o))
                for k in dir(o):
                    v = getattr(o, k, None)
                    u |= set(dir(v))
        self.common = set(u)
        self.methods = {}
        for c in self.classes.values():
            for n, d in c.body.items():
                if isinstance(d, Fn):
                    self.methods.setdefault(n, []).append(d)
                else:
                    self.common.add(n)
            self.common |= c.inst
        u |= {'name', 'value', '_value_', '_name_', '_fields', '_asdict', '_replace', '_make', 'filename', 'errno', 'strerror'}
        for m in self.mods.values():
            u |= set(m.ns)
            u.add(m.name.split('.')[-1])
            for x in ast.walk(m.tree):
                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                    if x.value.isidentifier():
                        u.add(x.value)
                    if x.value.startswith('--'):
                        u.add(x.value[2:].replace('-', '_'))
                if isinstance(x, ast.keyword) and x.arg:
                    u.add(x.arg)
                if isinstance(x, ast.Call) and (getattr(x.func, 'id', None) or getattr(x.func, 'attr', None)) in ('namedtuple', 'Enum', 'IntEnum', 'make_dataclass'):
                    for a in x.args[1:]:
                        if isinstance(a, ast.Constant) and isinstance(a.value, str):
                            u |= set(a.value.replace(',', ' ').split())
        for c in self.classes.values():
            u |= set(c.body) | c.inst
        u |= self.stored

    # ------------------------------------------------------------ values
    def lookup(self, m, name, seen=()):
        """value of a name of a module: (kind, value), ('missing', None) when there is none"""
        if (m.name, name) in seen:
            return 'any', None
        seen = seen + ((m.name, name),)
        d = m.ns.get(name)
        if not d:
            for k, src in m.ns.get('*', ()):
                if src in self.mods:
                    r = self.lookup(self.mods[src], name, seen)
                    if r[0] != 'missing' and not name.startswith('_'):
                        return r
                else:
                    return 'any', None
            if m.package and m.name + '.' + name in self.mods:
                return 'mod', m.name + '.' + name
            if m.open or name in ('__file__', '__name__', '__doc__', '__dict__', '__path__', '__all__', '__spec__', '__package__'):
                return 'any', None
            return 'missing', None
        if len(d) > 1:
            if all(k == 'import' for k, _ in d):
                return self.imported(d[0][1])
            return 'any', None
        k, v = d[0]
        if k == 'fn':
            return 'fn', v
        if k == 'class':
            return 'class', self.classes[id(v)]
        if k == 'import':
            return self.imported(v)
        if k == 'from':
            src, n = v
            if src in self.mods:
                r = self.lookup(self.mods[src], n, seen)
                return r
            return ('missing', None) if src.split('.')[0] == self.p.package and src.split('.')[0] in self.mods else ('ext', '%s.%s' % (src, n))
        if v is not None:
            return self.value(v, Scope(self, m, None, None), seen)
        return 'any', None

    def imported(self, v):
        if v in self.mods:
            return 'mod', v
        return 'ext', v

    def value(self, e, sc, seen=()):
        if len(seen) > 12:
            return 'any', None
        if isinstance(e, ast.Name):
            return sc.name(e.id, seen)
        if isinstance(e, ast.Attribute):
            k, v = self.value(e.value, sc, seen)
            return self.attr(k, v, e.attr, sc, seen)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == 'super' and sc.cls is not None and sc.self_ is not None and not e.args:
                return 'super', sc.cls
            k, v = self.value(e.func, sc, seen)
            if k == 'class':
                return ('inst', v) if v.special != 'enum' else ('any', None)
            if k == 'ext':
                return 'ext', v + '()'
            if k == 'super' or k == 'any' or k == 'missing':
                return 'any', None
        if isinstance(e, ast.Constant):
            return 'const', e.value
        return 'any', None

    def attr(self, k, v, name, sc, seen=()):
        """value of an attribute"""
        if name.startswith('__') and not name.endswith('__') and sc.cls is not None:
            name = '_%s%s' % (sc.cls.name.lstrip('_'), name)
        if k == 'mod':
            r = self.lookup(self.mods[v], name, seen)
            return ('missing', None) if r[0] == 'missing' and name not in BUILTIN else r
        if k == 'ext':
            return self.outside(v, name)
        if k in ('class', 'inst', 'self', 'kind', 'super'):
            if v.open:
                return 'any', None
            c, d = v.find(name)
            if k == 'super':
                c, d = next(((b, b.body[name]) for b in v.mro[1:] if name in b.body), (None, None))
            if c is None:
                pool = [v] + (v.subs if k in ('self', 'kind') else [])
                # a mixin: what the classes that use it have
                pool = [x for b in pool for x in b.mro]
                if any(x.open for x in pool) or self.made or k != 'class' and any(x.leaks for x in pool) and name in self.texts:
                    return 'any', None
                if any(name in x.body or (k in ('inst', 'self', 'super') and name in x.inst) for x in pool) or k != 'class' and name in self.stored:
                    return 'any', None
                if k in ('class', 'kind') and any(name in x.inst for x in pool) and k == 'kind':
                    return 'any', None
                bases = [getattr(builtins, x) for x in v.ext if isinstance(getattr(builtins, x, None), type)] or [object]
                if any(hasattr(b, name) for b in bases) or name in ('__dict__', '__module__', '__qualname__', '__name__', '__mro__', '__bases__', '__members__', '__subclasses__', 'mro', '__annotations__', '__class__', '__doc__', '__wrapped__'):
                    return 'any', None
                if v.special == 'enum' and (name in ('name', 'value', '_value_', '_name_', '__members__', '_member_map_', '_value2member_map_', '_member_names_') or name.startswith('__')):
                    return 'any', None
                if v.special in ('dataclass', 'namedtuple') and name.startswith('_'):
                    return 'any', None
                return 'missing', None
            if isinstance(d, Fn):
                if d.strange:
                    return 'any', None
                if any(name in x.inst for x in v.mro) or name in self.stored and k != 'class':
                    return 'any', None
                if d.kind == 'static':
                    return 'fn', d
                if d.kind == 'class' or k in ('inst', 'self', 'super'):
                    return 'bound', (d, k, v)
                return ('fn', d) if k == 'class' else ('any', None)
            if isinstance(d, ast.ClassDef):
                return 'class', self.classes[id(d)]
            return 'any', None
        return 'any', None

    def outside(self, v, name):
        top = v.split('.')[0]
        full = '%s.%s' % (v, name)
        if '(' in v or top not in sys.stdlib_module_names:
            return 'ext', full
        o = real(v)
        if o is None or not isinstance(o, (type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType)):
            return 'ext', full
        if hasattr(o, name) or real(full) is not None:
            return 'ext', full
        return 'missing', None


def real(dotted):
    """a module or an object of the standard library"""
    parts = dotted.split('.')
    if parts[0] not in sys.stdlib_module_names or parts[0] in ('antigravity', 'this', 'idlelib', 'turtle', 'tkinter'):
        return None
    o = None
    for n in range(len(parts), 0, -1):
        try:
            o = importlib.import_module('.'.join(parts[:n]))
        except Exception:
            continue
        for p in parts[n:]:
            if not hasattr(o, p):
                return None
            o = getattr(o, p)
        return o
    return None


def functions(tree, N=None):
    """all functions with the class they belong to, and the module itself as (None, None)"""
    yield None, None

    def go(node, cls):
        for x in ast.iter_child_nodes(node):
            if isinstance(x, ast.ClassDef):
                yield from go(x, N.classes[id(x)] if N else x)
            elif isinstance(x, FN):
                yield cls, x
            else:
                yield from go(x, cls)
    yield from go(tree, None)


def mangle(name, cls):
    return '_%s%s' % (cls.name.lstrip('_'), name) if name.startswith('__') and not name.endswith('__') else name


class Scope:
    """names visible in a function"""

    def __init__(self, N, mod, cls, fn, up=None):
        self.N, self.mod, self.cls, self.fn, self.up = N, mod, cls, fn, up
        self.self_ = self.kind = None
        self.local, self.globals = {}, set()
        if fn is not None:
            for n in params(fn.args):
                self.local[n] = [None]
            self.collect(fn)
            if cls is not None and isinstance(fn, FN) and up is None and fn.args.args:
                decos = [getattr(d, 'id', None) for d in fn.decorator_list]
                first = fn.args.args[0].arg
                if 'staticmethod' not in decos and len(self.local[first]) == 1:
                    if 'classmethod' in decos or fn.name == '__new__':
                        self.kind = first
                    else:
                        self.self_ = first

    def collect(self, fn):
        L = self.local
        body = fn.body if isinstance(fn.body, list) else [fn.body]
        for x in own(body):
            if isinstance(x, (ast.Global,)):
                self.globals |= set(x.names)
            elif isinstance(x, ast.Nonlocal):
                for n in x.names:
                    self.globals.add('^' + n)
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    for n in assigned(t):
                        L.setdefault(n, []).append(x.value if isinstance(t, ast.Name) else None)
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                for n in assigned(x.target):
                    L.setdefault(n, []).append(None)
            elif isinstance(x, (ast.For, ast.AsyncFor)):
                for n in assigned(x.target):
                    L.setdefault(n, []).append(None)
            elif isinstance(x, ast.comprehension):
                for n in assigned(x.target):
                    L.setdefault(n, []).append(None)
            elif isinstance(x, (ast.With, ast.AsyncWith)):
                for i in x.items:
                    if i.optional_vars is not None:
                        for n in assigned(i.optional_vars):
                            L.setdefault(n, []).append(i.context_expr if isinstance(i.context_expr, ast.Call) and False else None)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                L.setdefault(x.name, []).append(None)
            elif isinstance(x, ast.NamedExpr):
                L.setdefault(x.target.id, []).append(None)
            elif isinstance(x, FN + (ast.ClassDef,)):
                L.setdefault(x.name, []).append(x)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for a in x.names:
                    L.setdefault(a.asname or a.name.split('.')[0], []).append(('import', x, a))
            elif hasattr(ast, 'MatchAs') and isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                L.setdefault(x.name, []).append(None)
            elif hasattr(ast, 'MatchMapping') and isinstance(x, ast.MatchMapping) and x.rest:
                L.setdefault(x.rest, []).append(None)
        for n in self.globals:
            L.pop(n.lstrip('^'), None)

    def name(self, n, seen=()):
        if n == self.self_ and self.cls is not None:
            return 'self', self.cls
        if n == self.kind and self.cls is not None:
            return 'kind', self.cls
        if n in self.local:
            l = self.local[n]
            if len(l) == 1 and l[0] is not None:
                d = l[0]
                if isinstance(d, tuple):
                    _, s, a = d
                    if isinstance(s, ast.Import):
                        return self.N.imported(a.name if a.asname else a.name.split('.')[0])
                    src = self.N.source(self.mod, s)
                    return self.N.lookup(self.N.mods[src], a.name) if src in self.N.mods else ('ext', '%s.%s' % (src, a.name))
                if isinstance(d, FN):
                    return 'fn', Fn(d, self.mod)
                if isinstance(d, ast.ClassDef):
                    return 'class', self.N.classes[id(d)]
                if isinstance(d, ast.AST) and not any(isinstance(x, ast.Name) and x.id == n for x in ast.walk(d)):
                    r = self.N.value(d, self, seen + ((id(self), n),))
                    return r if r[0] != 'missing' else ('any', None)
            return 'any', None
        if self.up is not None:
            return self.up.name(n, seen)
        r = self.N.lookup(self.mod, n, seen)
        if r[0] == 'missing' and n in BUILTIN:
            return 'ext', n
        return r


# ---------------------------------------------------------------- the check
def silent(fn):
    """a function that returns nothing (and does not only raise)"""
    body = list(own(fn.body))
    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) or isinstance(x, ast.Return) and x.value is not None and not (isinstance(x.value, ast.Constant) and x.value.value is None) for x in body):
        return False
    rest = [s for s in fn.body if not isinstance(s, ast.Pass) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return bool(rest) and not any(isinstance(s, ast.Raise) for s in rest)


class Walk:
    def __init__(self, N):
        self.N = N
        self.ctx = N.ctx
        self.bad = {}
        self.count = {'names': 0, 'attributes': 0, 'calls': 0, 'imports': 0, 'locals': 0}
        self.open_modules = {}

    def report(self, what, m, node, msg):
        self.bad.setdefault(what, ('%s:%d' % (m.rel, getattr(node, 'lineno', 1)), msg))

    def module(self, m):
        for s in ast.walk(m.tree):
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                self.imports(m, s)
        body = Scope(self.N, m, None, None)
        self.scope(m, m.tree.body, body, 'module')
        self.classes(m, m.tree, body)

    def classes(self, m, tree, up):
        pass

    def imports(self, m, s):
        N = self.N
        pk = N.p.package
        if isinstance(s, ast.Import):
            for a in s.names:
                self.count['imports'] += 1
                if a.name.split('.')[0] == pk and a.name not in N.mods:
                    self.report('%s imports %s' % (m.name, a.name), m, s, 'there is no module %s' % a.name)
        else:
            src = N.source(m, s)
            if src.split('.')[0] == pk and src not in N.mods:
                return self.report('%s imports %s' % (m.name, src), m, s, 'there is no module %s' % src)
            for a in s.names:
                self.count['imports'] += 1
                if a.name == '*':
                    continue
                if src in N.mods:
                    if N.lookup(N.mods[src], a.name)[0] == 'missing':
                        self.report('%s imports %s from %s' % (m.name, a.name, src), m, s, 'the module %s has no %s' % (src, a.name))
                elif src.split('.')[0] in sys.stdlib_module_names and real(src) is not None and N.outside(src, a.name)[0] == 'missing':
                    self.report('%s imports %s from %s' % (m.name, a.name, src), m, s, 'the module %s has no %s' % (src, a.name))

    def scope(self, m, body, sc, where):
        """one scope: its own nodes, then the scopes in it"""
        inner = []
        guard = guards(body)
        nodes = list(own(body))
        for x in nodes:
            self.nothing(m, x, sc, where)
            if isinstance(x, FN):
                inner.append((x, None))
            elif isinstance(x, ast.Lambda):
                inner.append((x, None))
            elif isinstance(x, ast.ClassDef):
                inner.append((x, None))
            elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                self.count['names'] += 1
                if x.id in guard:
                    continue
                if sc.name(x.id)[0] == 'missing' and not self.in_comp(x, nodes, sc):
                    self.report('name %s in %s' % (x.id, where), m, x, 'the name %s is not defined in %s' % (x.id, m.name))
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                self.attribute(m, x, sc, where, guard)
            elif isinstance(x, ast.Call):
                self.call(m, x, sc, where)
        for x, _ in inner:
            if isinstance(x, ast.ClassDef):
                c = self.N.classes[id(x)]
                cs = ClassScope(self.N, m, c, sc)
                self.scope_class(m, x, cs, sc, '%s:%s' % (m.name, x.name))
            else:
                n = '%s.%s' % (where, x.name) if isinstance(x, FN) and where != 'module' else '%s:%s' % (m.name, getattr(x, 'name', 'lambda')) if where == 'module' else where + '.lambda'
                s = Scope(self.N, m, sc.cls if sc.fn is not None else None, x, sc if sc.fn is not None else None)
                if sc.fn is not None:
                    s.self_, s.kind = None, None
                self.scope(m, x.body if isinstance(x.body, list) else [x.body], s, n)
                if isinstance(x, FN):
                    self.flow(m, x, s, n)

    def scope_class(self, m, node, cs, up, where):
        nodes = list(own(node.body))
        for x in nodes:
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                self.count['names'] += 1
                if cs.name(x.id)[0] == 'missing' and not self.in_comp(x, nodes, cs):
                    self.report('name %s in %s' % (x.id, where), m, x, 'the name %s is not defined in %s' % (x.id, m.name))
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                self.attribute(m, x, cs, where, ())
            elif isinstance(x, ast.Call):
                self.call(m, x, cs, where)
            elif isinstance(x, ast.ClassDef):
                c = self.N.classes[id(x)]
                self.scope_class(m, x, ClassScope(self.N, m, c, up), up, '%s.%s' % (where, x.name))
            elif isinstance(x, SCOPES):
                s = Scope(self.N, m, cs.c, x, up if up.fn is not None else None)
                if up.fn is not None and isinstance(x, FN) and x.args.args:
                    s.self_ = x.args.args[0].arg
                n = '%s.%s' % (where, getattr(x, 'name', 'lambda'))
                self.scope(m, x.body if isinstance(x.body, list) else [x.body], s, n)
                if isinstance(x, FN):
                    self.flow(m, x, s, n)

    def in_comp(self, x, nodes, sc):
        """bound by a comprehension of a module or class body"""
        return any(isinstance(n, ast.comprehension) and x.id in assigned(n.target) for n in nodes)

    def outside(self, m):
        """classes of the module extend classes that are not in the package: any value may hold what those provide"""
        if id(m) not in self.open_modules:
            self.open_modules[id(m)] = any(isinstance(n, ast.ClassDef) and getattr(self.N.classes.get(id(n)), 'outer', False) for n in ast.walk(m.tree))
        return self.open_modules[id(m)]

    def attribute(self, m, x, sc, where, guard):
        N = self.N
        self.count['attributes'] += 1
        k, v = N.value(x.value, sc)
        if x.attr in guard:
            return
        if k == 'missing':
            return
        if k == 'any' or k == 'const':
            if x.attr not in N.every and not N.mangled(x.attr, sc) and not foreign(x.value, sc) and not self.outside(m):
                self.report('attribute %s in %s' % (x.attr, where), m, x, 'nothing in the package or in the built-in types has an attribute %s' % x.attr)
            return
        if k == 'fn' or k == 'bound':
            return
        if N.attr(k, v, x.attr, sc)[0] == 'missing':
            what = v if isinstance(v, str) else v.qual
            self.report('attribute %s of %s' % (x.attr, what), m, x, '%s has no attribute %s' % ({'mod': 'the module ', 'ext': ''}.get(k, 'the class ') + what, x.attr))

    def call(self, m, x, sc, where):
        N = self.N
        k, v = N.value(x.func, sc)
        if k == 'fn':
            if not v.strange:
                self.fits(m, x, v, 0, where)
        elif k == 'bound':
            d, how, c = v
            if how in ('self',) or how == 'kind':
                # every class that gets here, with the method it has
                me = sc.fn.name if isinstance(sc.fn, FN) else None
                todo = {}
                for s in [c] + c.subs:
                    if me is not None and s is not c and s.find(me)[1] is not None and s.find(me)[1].__class__ is Fn and s.find(me)[1].node is not sc.fn:
                        continue
                    t = s.find(x.func.attr)[1] if isinstance(x.func, ast.Attribute) else d
                    if isinstance(t, Fn) and not t.strange:
                        todo[id(t.node)] = t
                for t in todo.values():
                    self.fits(m, x, t, 0 if t.kind == 'static' else 1, where)
            else:
                self.fits(m, x, d, 1, where)
        elif k == 'any' and isinstance(x.func, ast.Attribute) and x.func.attr not in N.common and x.func.attr not in N.stored and not foreign(x.func.value, sc):
            # a method of an object whose class is not known: one of the methods of this name must take the arguments
            fs = N.methods.get(x.func.attr)
            if fs and all(not f.strange for f in fs):
                old, wrong = self.bad, []
                for f in fs:
                    tried = []
                    for skip in {'plain': (1, 0), 'class': (1,), 'static': (0,)}[f.kind]:
                        self.bad = {}
                        self.fits(m, x, f, skip, where)
                        tried.append(self.bad)
                    wrong.append(tried[0] if all(tried) else {})
                self.bad = old
                if all(wrong):
                    for k, v in wrong[0].items():
                        self.bad.setdefault(k, v)
        elif k == 'class':
            self.build(m, x, v, where)
        elif k == 'kind':
            for s in [v] + v.subs:
                me = s.find(sc.fn.name)[1] if isinstance(sc.fn, FN) else None
                if isinstance(me, Fn) and me.node is sc.fn and s is v:
                    self.build(m, x, s, where)

    def nothing(self, m, x, sc, where):
        """something is done with the result of a function that has none"""
        if isinstance(x, (ast.For, ast.comprehension)):
            e, use = x.iter, 'gone through'
        elif isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Load):
            e, use = x.value, 'used'
        elif isinstance(x, ast.BinOp):
            e, use = x.left if isinstance(x.left, ast.Call) else x.right, 'used'
        elif isinstance(x, ast.Assign) and isinstance(x.targets[0], (ast.Tuple, ast.List)):
            e, use = x.value, 'unpacked'
        else:
            return
        if not isinstance(e, ast.Call):
            return
        k, v = self.N.value(e.func, sc)
        if k == 'fn':
            fs = [v]
        elif k == 'bound':
            d, how, c = v
            fs = [d] if how not in ('self', 'kind') else [t for s in [c] + c.subs for t in [s.find(e.func.attr)[1] if isinstance(e.func, ast.Attribute) else d]]
        else:
            return
        if fs and all(isinstance(f, Fn) and not f.strange and silent(f.node) for f in fs):
            self.report('result of %s in %s' % (fs[0].name, where), m, e, '%s returns nothing, and its result is %s here' % (fs[0].name, use))

    def build(self, m, x, c, where):
        if c.open or c.special or c.ext:
            return
        if c.find('__new__')[0] is not None:
            return
        i = c.find('__init__')[1]
        if i is None:
            self.count['calls'] += 1
            if [a for a in x.args if not isinstance(a, ast.Starred)] or [k for k in x.keywords if k.arg]:
                self.report('call of %s in %s' % (c.name, where), m, x, '%s takes no arguments' % c.qual)
        elif isinstance(i, Fn) and not i.strange:
            self.fits(m, x, i, 1, where, c.name)

    def fits(self, m, x, f, skip, where, name=None):
        self.count['calls'] += 1
        a = f.node.args
        pos = [p.arg for p in a.posonlyargs + a.args][skip:]
        only = len(a.posonlyargs) - skip if len(a.posonlyargs) > skip else 0
        star = any(isinstance(y, ast.Starred) for y in x.args)
        dstar = any(k.arg is None for k in x.keywords)
        given = [y for y in x.args if not isinstance(y, ast.Starred)]
        kws = [k.arg for k in x.keywords if k.arg]
        need = pos[:len(pos) - len(a.defaults)] if len(a.defaults) <= len(pos) else []
        konly = [p.arg for p in a.kwonlyargs]
        label = name or f.name
        key = 'call of %s in %s' % (label, where)
        if skip and not (a.posonlyargs + a.args) and not a.vararg:
            return self.report(key, m, x, '%s takes no first argument (self)' % label)
        if not star and len(given) > len(pos) and not a.vararg:
            return self.report(key, m, x, '%s is called with %d positional arguments and takes %d' % (label, len(given), len(pos)))
        for k in kws:
            if k in pos[only:]:
                if not star and pos.index(k) < len(given):
                    return self.report(key, m, x, '%s is given the argument %s twice' % (label, k))
            elif k not in konly and not a.kwarg:
                return self.report(key, m, x, '%s has no parameter %s' % (label, k))
        if not star and not dstar:
            for i, p in enumerate(need):
                if i >= len(given) and p not in kws:
                    return self.report(key, m, x, '%s is called without its argument %s' % (label, p))
            for p, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is None and p.arg not in kws:
                    return self.report(key, m, x, '%s is called without its argument %s' % (label, p.arg))

    # ------------------------------------------------------------ local variables
    def flow(self, m, fn, sc, where):
        """local variables that are read where no assignment can have happened"""
        local = set(sc.local) - set(params(fn.args))
        comp = set()
        for x in own(fn.body):
            if isinstance(x, ast.comprehension):
                comp |= set(assigned(x.target))
        plain = set()
        for x in own(fn.body):
            if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.With, ast.Import, ast.ImportFrom, ast.NamedExpr, ast.ExceptHandler) + FN + (ast.ClassDef,)):
                plain |= set(binds(x))
        local -= comp - plain
        self.m, self.where, self.local, self.comp = m, where, local, comp & plain
        self.block(fn.body, set())

    def reads(self, e, have):
        nodes = list(own([e]))
        have |= {x.target.id for x in nodes if isinstance(x, ast.NamedExpr)}
        for x in nodes:
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del)) and x.id in self.local:
                self.count['locals'] += 1
                if x.id not in have and x.id not in self.comp:
                    self.report('local %s in %s' % (x.id, self.where), self.m, x, 'the local variable %s is read before any assignment to it' % x.id)

    def block(self, body, have):
        """names that may be bound after the statements; None when they never end"""
        for s in body:
            have = self.stmt(s, have)
            if have is None:
                return None
        return have

    def stmt(self, s, have):
        if isinstance(s, (ast.Return, ast.Raise)):
            self.exprs(s, have)
            return None
        if isinstance(s, (ast.Break, ast.Continue)):
            self.loop[-1] |= have
            return None
        if isinstance(s, FN + (ast.ClassDef,)):
            for d in s.decorator_list:
                self.reads(d, have)
            return have | {s.name}
        if isinstance(s, ast.If):
            self.reads(s.test, have)
            a = self.block(s.body, set(have))
            b = self.block(s.orelse, set(have))
            return (a or set()) | (b or set()) if a is not None or b is not None else None
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                self.reads(s.test, have)
            else:
                self.reads(s.iter, have)
            inside = set(have) | {n for x in own(s.body) for n in binds(x)} | (set(assigned(s.target)) if not isinstance(s, ast.While) else set())
            # the statements that the first round always gets to: what is bound later in the body is not there yet
            first = set(have) | (set(assigned(s.target)) if not isinstance(s, ast.While) else set())
            self.loop.append(set(have))
            for t in s.body:
                if not isinstance(t, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr)) or any(isinstance(y, (ast.IfExp, ast.BoolOp, ast.NamedExpr) + COMPS) for y in ast.walk(t)):
                    break
                first = self.stmt(t, first)
            a = self.block(s.body, set(inside))
            out = self.loop.pop() | (a or set()) | set(have) | (inside if a is not None else set())
            b = self.block(s.orelse, set(out))
            return out if b is None else out | b
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.reads(i.context_expr, have)
                if i.optional_vars is not None:
                    have = have | set(assigned(i.optional_vars))
            return self.block(s.body, set(have))
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            a = self.block(s.body, set(have))
            part = set(have) | {n for x in own(s.body) for n in binds(x)}
            e = self.block(s.orelse, set(a)) if a is not None else None
            outs = [e] if e is not None else []
            for h in s.handlers:
                r = self.block(h.body, part | ({h.name} if h.name else set()))
                if r is not None:
                    outs.append(r)
            res = set().union(*outs) if outs else None
            if s.finalbody:
                f = self.block(s.finalbody, part | (res or set()))
                return None if f is None or res is None else res | f
            return res
        if s.__class__.__name__ == 'Match':
            self.reads(s.subject, have)
            outs = [set(have)]
            for c in s.cases:
                r = self.block(c.body, set(have) | {n for x in ast.walk(c.pattern) for n in [getattr(x, 'name', None) or getattr(x, 'rest', None)] if n})
                if r is not None:
                    outs.append(r)
            return set().union(*outs)
        self.exprs(s, have)
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id in self.local and s.target.id not in have:
            self.report('local %s in %s' % (s.target.id, self.where), self.m, s, 'the local variable %s is read before any assignment to it' % s.target.id)
        have = set(have) | set(binds(s))
        for x in own([s]):
            if isinstance(x, ast.NamedExpr):
                have.add(x.target.id)
        if isinstance(s, ast.Delete):
            have -= {t.id for t in s.targets if isinstance(t, ast.Name)}
        return have

    loop = [set()]

    def exprs(self, s, have):
        for f, v in ast.iter_fields(s):
            for e in v if isinstance(v, list) else [v]:
                if isinstance(e, ast.expr):
                    self.reads(e, have)


def binds(x):
    """names bound by a node in its scope"""
    if isinstance(x, ast.Assign):
        return [n for t in x.targets for n in assigned(t)]
    if isinstance(x, ast.AnnAssign):
        return list(assigned(x.target)) if x.value is not None else []
    if isinstance(x, (ast.AugAssign, ast.For, ast.AsyncFor)):
        return list(assigned(x.target))
    if isinstance(x, (ast.With, ast.AsyncWith)):
        return [n for i in x.items if i.optional_vars is not None for n in assigned(i.optional_vars)]
    if isinstance(x, (ast.Import, ast.ImportFrom)):
        return [a.asname or a.name.split('.')[0] for a in x.names]
    if isinstance(x, ast.NamedExpr):
        return [x.target.id]
    if isinstance(x, ast.ExceptHandler):
        return [x.name] if x.name else []
    if isinstance(x, FN + (ast.ClassDef,)):
        return [x.name]
    return []


def guards(body):
    """names and attributes whose absence the code allows for: hasattr, except NameError / AttributeError, getattr with a default"""
    out = set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr') and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                out.add(x.args[1].value)
            if isinstance(x, ast.Try):
                for h in x.handlers:
                    t = h.type
                    names = {getattr(e, 'id', getattr(e, 'attr', None)) for e in (t.elts if isinstance(t, ast.Tuple) else [t])} if t is not None else {'Exception'}
                    if names & {'NameError', 'AttributeError', 'Exception', 'BaseException', 'TypeError', 'ImportError'}:
                        for y in x.body:
                            for z in ast.walk(y):
                                if isinstance(z, ast.Attribute):
                                    out.add(z.attr)
                                if isinstance(z, ast.Name) and names & {'NameError', 'Exception', 'BaseException', 'ImportError'}:
                                    out.add(z.id)
    return out


def foreign(e, sc):
    """an object of outside code: made by a call of something that is not in the package"""
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call, ast.Await, ast.Starred)):
        e = e.func if isinstance(e, ast.Call) else e.value
    if not isinstance(e, ast.Name):
        return False
    k, v = sc.name(e.id)
    if k == 'ext':
        return True
    if k in ('self', 'kind', 'inst') and v.open:
        return True
    return e.id in outer_values(sc)


def outer_values(sc):
    """local variables that may hold objects of outside code"""
    if sc.fn is None:
        return set()
    if getattr(sc, 'outer', None) is None:
        sc.outer = set()
        pairs = []
        for x in own(sc.fn.body if isinstance(sc.fn.body, list) else [sc.fn.body]):
            if isinstance(x, ast.Assign):
                pairs += [(n, x.value) for t in x.targets for n in assigned(t)]
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)) and x.value is not None:
                pairs += [(n, x.value) for n in assigned(x.target)]
            elif isinstance(x, (ast.For, ast.comprehension)):
                pairs += [(n, x.iter) for n in assigned(x.target)]
            elif isinstance(x, ast.With):
                pairs += [(n, i.context_expr) for i in x.items if i.optional_vars is not None for n in assigned(i.optional_vars)]
            elif isinstance(x, ast.NamedExpr):
                pairs.append((x.target.id, x.value))
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                sc.outer |= {a.asname or a.name.split('.')[0] for a in x.names}
        n = -1
        while n != len(sc.outer):
            n = len(sc.outer)
            for name, e in pairs:
                for x in ast.walk(e):
                    if isinstance(x, ast.Name) and (x.id in sc.outer or x.id not in sc.local and sc.name(x.id)[0] == 'ext' and sc.name(x.id)[1] not in BUILTIN):
                        sc.outer.add(name)
    if sc.up is not None:
        return sc.outer | outer_values(sc.up)
    return sc.outer


class ClassScope:
    def __init__(self, N, mod, c, up):
        self.N, self.mod, self.c, self.upper = N, mod, c, up
        self.cls, self.fn, self.self_, self.local = c, None, None, {}

    def name(self, n, seen=()):
        n = mangle(n, self.c)
        if n in self.c.body:
            d = self.c.body[n]
            if isinstance(d, Fn):
                return ('fn', d) if not d.strange and d.kind == 'plain' else ('any', None)
            if isinstance(d, ast.ClassDef):
                return 'class', self.N.classes[id(d)]
            return 'any', None
        return self.upper.name(n, seen)


def mangled(self, name, sc):
    return name.startswith('__') and sc.cls is not None and '_%s%s' % (sc.cls.name.lstrip('_'), name) in self.every


Names.mangled = mangled


def names(ctx):
    ctx.rule('scopes, module tables, class tables (with inheritance) and signatures are read from the source; each use of a name, attribute, call and local variable that these tables resolve must find what it asks for')
    try:
        N = Names(ctx)
    except AnalysisError as e:
        ctx.undecided('package', e, 'anchor: %s' % e)
        return None
    for n in sorted(N.mods):
        m = N.mods[n]
        W = Walk(N)
        try:
            W.module(m)
        except (RecursionError, AttributeError, KeyError, TypeError, ValueError) as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            ctx.undecided(n, m.rel, 'analysis failed: %s %s at %s:%d' % (type(e).__name__, e, tb.filename.split('/')[-1], tb.lineno))
            continue
        for k, v in W.count.items():
            ctx.stat(k, v)
        for key in sorted(W.bad):
            where, msg = W.bad[key]
            ctx.violation(key.replace(' ', '_'), where, msg)
        if not W.bad:
            ctx.ok(n, sum(W.count.values()))
    ctx.stat('modules', len(N.mods))
    ctx.stat('classes', len(N.classes))
    return None
