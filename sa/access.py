"""Attributes, subscripts, assignment targets and freezing (mixin of Interp)."""
import ast
from .terms import *
from .state import *
from .model import *
from .out import *


class AccessMixin:
    # ------------------------------------------------------------ attributes
    def e_Attribute(self, e, st, ctx):
        base = self.ev(e.value, st, ctx)
        if st.dead:
            return top('dead')
        return self.getattr_(base, self.mangle(e.attr, ctx), st, e)

    def mangle(self, name, ctx):
        if name.startswith('__') and not name.endswith('__'):
            ci = None
            if ctx[1] is not None:
                f = self.cur_fn(ctx)
                ci = f.owner if f else None
            if ci is not None:
                return '_%s%s' % (ci.name.lstrip('_'), name)
        return name

    def cur_fn(self, ctx):
        oid = ctx[1]
        return self.frame_fn.get(oid)

    frame_fn = {}

    def ns_of(self, ci, st):
        return st.get(ci.oid)

    def class_attr(self, ci, name, st):
        for c in ci.mro:
            o = self.ns_of(c, st)
            if o is not None and name in o.fields and o.fields[name] is not ABSENT:
                return o.fields[name], c
        return None, None

    def ext_based(self, ci):
        return any(c.ext_bases and not all(b in ('object', 'Enum', 'enum.Enum', 'enum.IntEnum', 'IntEnum') for b in c.ext_bases)
                   for c in ci.mro)

    def find_method(self, v, name, st):
        """bound method of an instance or None"""
        o = st.obj(v)
        if not isinstance(o, Inst) or o.cls is None:
            return None
        f, c = self.class_attr(o.cls, name, st)
        if f is None:
            return None
        return self.bind_attr(f, v, o.cls, st)

    def bind_attr(self, f, self_v, ci, st):
        if f.op == 'fn':
            return mk('bm', self_v, f)
        if f.op == 'classmethod':
            return mk('bm', mk('cls', ci), f.args[0])
        if f.op == 'staticmethod':
            return f.args[0]
        return f

    def module_attr(self, m, base, name, st=None):
        """the attributes that every module has"""
        if name == '__name__':
            return K(base.args[0])
        if name == '__file__':
            return mk('modfile', base.args[0], ty='str')
        if name == '__package__':
            return K(base.args[0] if m.path.endswith('__init__.py') else base.args[0].rpartition('.')[0])
        if name in ('__builtins__', '__loader__', '__spec__', '__path__'):
            return mk('moddunder', base.args[0], name)
        if name == '__cached__':
            return mk('modfile', base.args[0], 'c', ty='str')
        if name == '__doc__':
            return K(ast.get_docstring(m.tree, clean=False))
        if name == '__dict__' and st is not None:
            ns = st.get(m.oid)
            if all(v is not ABSENT and v.op != 'ite' for v in ns.fields.values()):
                l = [('i', (K(k), self.module_attr(m, base, k))) for k in ('__name__', '__doc__', '__package__', '__loader__', '__spec__', '__file__', '__cached__', '__builtins__')]
                return st.alloc(Dic(tuple(l) + tuple(('i', (K(k), v)) for k, v in ns.fields.items())))
        if name.startswith('__') and name.endswith('__') and hasattr(type(ast), name):
            return mk('moddunder', base.args[0], name)
        return None

    def getattr_(self, base, name, st, node, quiet=False):
        if st.dead and not quiet:
            return top('dead')
        op = base.op
        if op == 'ref':
            o = st.obj(base)
            if isinstance(o, Inst):
                return self.inst_attr(base, o, name, st, node, quiet)
            return mk('bmeth', base, name)
        if op == 'mod':
            m = self.p.modules[base.args[0]]
            self.load(base.args[0])
            o = st.get(m.oid)
            v = o.fields.get(name)
            if v is not None and v is not ABSENT:
                if not quiet:
                    v = self.maybe_absent(v, st, node, 'AttributeError', '%s.%s' % (base.args[0], name))
                return v
            sub_ = base.args[0] + '.' + name
            if sub_ in self.p.modules and self.p.modules[sub_].loaded:
                return mk('mod', sub_)
            d = self.module_attr(m, base, name, st)
            if d is not None:
                return d
            if quiet:
                return None
            return self.fail(st, 'AttributeError', 'module %s has no attribute %s' % (base.args[0], name), node)
        if op == 'cls':
            ci = base.args[0]
            v, c = self.class_attr(ci, name, st)
            if v is not None:
                if v.op == 'classmethod':
                    return mk('bm', base, v.args[0])
                if v.op == 'staticmethod':
                    return v.args[0]
                return v
            if name == '__members__' and ci.is_enum:
                return st.alloc(Dic(tuple(('i', (K(m.args[1]), m)) for m in self.enum_members(ci, st))))
            if name == '__mro__':
                return mk('tup', *[mk('cls', c) for c in ci.mro])
            if name == '__bases__' and '?' not in ci.ext_bases:
                return mk('tup', *([mk('cls', c) for c in ci.bases] + [mk('ext', x) for x in ci.ext_bases])) if ci.bases or ci.ext_bases else mk('tup', mk('ext', 'object'))
            if name == '__name__' or name == '__qualname__':
                return K(ci.name)
            if name == '__module__':
                return K(ci.module.name)
            if name in ('__dict__', '__doc__', '__bases__'):
                return mk('attr', base, name)
            if self.ext_based(ci) or (ci.is_enum and name.startswith('_')):
                return mk('extattr', base, name)
            if quiet:
                return None
            if name.startswith('__') and name.endswith('__') and hasattr(type, name):
                return mk('extattr', base, name)
            return self.fail(st, 'AttributeError', 'class %s has no attribute %s' % (ci.name, name), node)
        if op in ('enumm', 'enum'):
            ci = base.args[0]
            if name in ('value', '_value_'):
                return base.args[2] if op == 'enumm' else base.args[1]
            if name in ('name', '_name_'):
                if op == 'enumm':
                    # canonical (first) member with that value
                    for m in self.enum_members(ci, st):
                        if m.args[2] is base.args[2]:
                            return K(m.args[1])
                    return K(base.args[1])
                return mk('enumname', ci, base.args[1], ty='str')
            if name == '__class__':
                return mk('cls', ci)
            v, c = self.class_attr(ci, name, st)
            if v is not None:
                if v.op == 'property':
                    return self.call(mk('bm', base, v.args[0]), [], {}, st, node)
                return self.bind_attr(v, base, ci, st)
            if quiet:
                return None
            return self.fail(st, 'AttributeError', '%s has no attribute %s' % (ci.name, name), node)
        if op == 'super':
            ci, sv = base.args
            so = st.obj(sv)
            cls = so.cls if isinstance(so, Inst) else (sv.args[0] if sv.op == 'cls' else ci)
            mro = cls.mro
            i = mro.index(ci) + 1 if ci in mro else 1
            for c in mro[i:]:
                ns = self.ns_of(c, st)
                if name in ns.fields:
                    f = ns.fields[name]
                    if f.op == 'property':
                        return self.call(mk('bm', sv, f.args[0]), [], {}, st, node)
                    return self.bind_attr(f, sv, cls, st)
            return mk('bmeth', mk('ext', 'object'), name)
        if op == 'ite' and mixed(base):
            if quiet:
                a = self.getattr_(base.args[1], name, st, node, True)
                b = self.getattr_(base.args[2], name, st, node, True)
                if a is None or b is None:
                    return None
                return ite(base.args[0], a, b)
            return self.fork(base.args[0], lambda x: self.getattr_(base.args[1], name, x, node),
                             lambda x: self.getattr_(base.args[2], name, x, node), st)
        if op == 'ext':
            if name == '__name__' and '.' not in base.args[0]:
                return K(base.args[0])
            full = base.args[0] + '.' + name
            v = self.B.ext_const(full)
            return v if v is not None else mk('ext', full)
        if op in ('fn', 'bm'):
            if name == '__name__':
                return K((base.args[0] if op == 'fn' else base.args[1].args[0]).name)
            if name == '__self__' and op == 'bm':
                return base.args[0]
            return mk('fnattr', base, name)
        if op == 'top':
            return top('attribute of ' + str(base.args[0])[:80])
        if base is NONE or isk(base) or op == 'tup' or base.ty in ('str', 'bytes') or is_numeric(base):
            if name == '__class__':
                return self.B.type_of(self, base, st)
            if base is NONE:
                if quiet:
                    return None
                return self.fail(st, 'AttributeError', "None has no attribute %s" % name, node)
            return mk('bmeth', base, name)
        if op == 'excval':
            return mk('attr', base, name)
        if op == 'passive':
            return base
        # untyped symbolic value
        if ('*', name) in self.ftypes:
            return self.typed(mk('attr', base, name), self.ftypes[('*', name)])
        return mk('attr', base, name)

    def enum_members(self, ci, st):
        out, seen = [], set()
        for k, v in self.ns_of(ci, st).fields.items():
            if v.op == 'enumm' and v.args[2] not in seen:
                seen.add(v.args[2])
                out.append(v)
        return out

    def inst_attr(self, base, o, name, st, node, quiet):
        ci = o.cls
        if name == '__class__':
            return mk('cls', ci) if ci is not None else top('class')
        if name == '__dict__':
            return st.alloc(Dic(tuple(('i', (K(k), v)) for k, v in o.fields.items() if v is not ABSENT), inst=base))
        v = o.fields.get(name)
        if v is not None and v is not ABSENT and not (v.op == 'ite' and self._has_absent(v)):
            return v
        if ci is None:
            # namespace object used as a value (should not happen)
            if v is not None and v is not ABSENT:
                return v
            if quiet:
                return None
            return self.fail(st, 'AttributeError', 'no attribute %s' % name, node)
        cv, c = self.class_attr(ci, name, st)
        if v is not None and v is not ABSENT:
            # gated presence
            if cv is not None and cv.op not in ('property',):
                bound = self.bind_attr(cv, base, ci, st)
                return self._fill_absent(v, bound)
            if quiet:
                return None
            return self.maybe_absent(v, st, node, 'AttributeError', '%s.%s' % (ci.name, name))
        if cv is not None:
            if o.tag is not None and (ci.name, name) in self.ftypes and cv.op not in ('fn', 'property', 'classmethod', 'staticmethod'):
                return self.lazy_get(base, o, name, st)
            if cv.op == 'property':
                if quiet:
                    return cv
                return self.call(mk('bm', base, cv.args[0]), [], {}, st, node)
            return self.bind_attr(cv, base, ci, st)
        if o.tag is not None:
            return self.lazy_get(base, o, name, st)
        g, c = self.class_attr(ci, '__getattr__', st)
        if g is not None and not quiet:
            return self.call(self.bind_attr(g, base, ci, st), [K(name)], {}, st, node)
        if self.ext_based(ci):
            return mk('extattr', base, name)
        if quiet:
            return None
        return self.fail(st, 'AttributeError', '%s object has no attribute %s' % (ci.name, name), node)

    def _fill_absent(self, v, other):
        if v is ABSENT:
            return other
        if v.op == 'ite':
            return ite(v.args[0], self._fill_absent(v.args[1], other), self._fill_absent(v.args[2], other))
        return v

    def lazy_get(self, base, o, name, st):
        v = self.lazy_field(o, name)
        return v

    def setattr_(self, base, name, v, st, node):
        if st.dead:
            return
        if base.op == 'ite':
            self.fork(base.args[0], lambda x: self.setattr_(base.args[1], name, v, x, node) or NONE,
                      lambda x: self.setattr_(base.args[2], name, v, x, node) or NONE, st)
            return
        o = st.obj(base)
        if isinstance(o, Inst):
            if o.cls is not None:
                f, c = self.class_attr(o.cls, '__setattr__', st)
                if f is not None and f.op == 'fn':
                    self.call(self.bind_attr(f, base, o.cls, st), [K(name), v], {}, st, node)
                    return
                p, c = self.class_attr(o.cls, name, st)
                if p is not None and p.op == 'property':
                    self.fail(st, 'AttributeError', "property %s has no setter" % name, node)
                    return
            if o.tag is not None:
                st.emit('setattr', (o.tag, name, self.freeze(v, st)), self.loc(node))
            st.set(base.args[0], o.put(name, v))
            return
        if base.op == 'mod':
            m = self.p.modules[base.args[0]]
            st.emit('setattr', (base, name, self.freeze(v, st)), self.loc(node))
            st.set(m.oid, st.get(m.oid).put(name, v))
            return
        if base.op == 'cls':
            ci = base.args[0]
            st.emit('setattr', (base, name, self.freeze(v, st)), self.loc(node))
            st.set(ci.oid, st.get(ci.oid).put(name, v))
            return
        if base is NONE or isk(base) or base.op == 'tup':
            self.fail(st, 'AttributeError', 'cannot set attribute %s' % name, node)
            return
        st.emit('setattr', (self.freeze(base, st), name, self.freeze(v, st)), self.loc(node))

    # ------------------------------------------------------------ subscripts
    def e_Subscript(self, e, st, ctx):
        base = self.ev(e.value, st, ctx)
        idx = self.ev_index(e.slice, st, ctx)
        if st.dead:
            return top('dead')
        return self.getitem(base, idx, st, e)

    def e_Slice(self, e, st, ctx):
        return self.ev_index(e, st, ctx)

    def ev_index(self, e, st, ctx):
        if isinstance(e, ast.Slice):
            f = [self.ev(x, st, ctx) if x is not None else NONE for x in (e.lower, e.upper, e.step)]
            return mk('slice', *f)
        return self.ev(e, st, ctx)

    def getitem(self, base, idx, st, node):
        if st.dead:
            return top('dead')
        if base.op == 'ite' and not is_numeric(base):
            return self.fork(base.args[0], lambda x: self.getitem(base.args[1], idx, x, node),
                             lambda x: self.getitem(base.args[2], idx, x, node), st)
        if base.op == 'cls':
            ci = base.args[0]
            if ci.is_enum:
                if isk(idx):
                    for k, v in self.ns_of(ci, st).fields.items():
                        if v.op == 'enumm' and k == kv(idx):
                            return v
                    return self.fail(st, 'KeyError', '%s has no member %r' % (ci.name, kv(idx)), node)
                if idx.op == 'enumname' and idx.args[0] is ci:
                    return mk('enum', ci, idx.args[1])
                return mk('enum', ci, mk('enumbyname', ci, idx))
            return base
        o = st.obj(base)
        if isinstance(o, Inst):
            f = self.find_method(base, '__getitem__', st)
            if f is not None:
                return self.call(f, [idx], {}, st, node)
        return self.B.getitem(self, base, idx, st, node)

    def setitem(self, base, idx, v, st, node):
        if st.dead:
            return
        if base.op == 'ite':
            self.fork(base.args[0], lambda x: self.setitem(base.args[1], idx, v, x, node) or NONE,
                      lambda x: self.setitem(base.args[2], idx, v, x, node) or NONE, st)
            return
        o = st.obj(base)
        if isinstance(o, Inst):
            f = self.find_method(base, '__setitem__', st)
            if f is not None:
                self.call(f, [idx, v], {}, st, node)
                return
        self.B.setitem(self, base, idx, v, st, node)

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, st, ctx):
        if isinstance(t, ast.Name):
            name = t.id
            if ctx[1] is not None:
                f = st.get(ctx[1])
                if name in f.globals_:
                    o = st.get(ctx[0].oid)
                    st.emit('setattr', (mk('mod', ctx[0].name), name, self.freeze(v, st)), self.loc(t))
                    st.set(ctx[0].oid, o.put(name, v))
                    return
                if name in f.nonlocals:
                    oid = f.parent
                    while oid is not None:
                        g = st.get(oid)
                        if name in g.vars:
                            st.set(oid, g.put(name, v))
                            return
                        oid = g.parent
                st.set(ctx[1], f.put(name, v))
            else:
                o = st.get(ctx[2])
                st.set(ctx[2], o.put(name, v))
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, ctx)
            self.setattr_(base, self.mangle(t.attr, ctx), v, st, t)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, ctx)
            idx = self.ev_index(t.slice, st, ctx)
            self.setitem(base, idx, v, st, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            vs = self.B.unpack(self, v, n if not star else None, st, t)
            if vs is None:
                for i, x in enumerate(t.elts):
                    if isinstance(x, ast.Starred):
                        self.assign(x.value, self.unsupported(st, 'starred unpacking of unknown length', t), st, ctx)
                    else:
                        self.assign(x, self.B.getitem(self, v, K(i), st, t), st, ctx)
                return
            if star:
                i = star[0]
                after = n - i - 1
                if len(vs) < n - 1:
                    self.fail(st, 'ValueError', 'not enough values to unpack', t)
                    return
                mid = vs[i:len(vs) - after]
                for x, y in zip(t.elts[:i], vs[:i]):
                    self.assign(x, y, st, ctx)
                self.assign(t.elts[i].value, st.alloc(Seq('list', tuple(('i', m) for m in mid))), st, ctx)
                for x, y in zip(t.elts[i + 1:], vs[len(vs) - after:]):
                    self.assign(x, y, st, ctx)
                return
            if len(vs) != n:
                self.fail(st, 'ValueError', 'cannot unpack %d values into %d targets' % (len(vs), n), t)
                return
            for x, y in zip(t.elts, vs):
                self.assign(x, y, st, ctx)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, ctx)

    # ------------------------------------------------------------ freezing
    def freeze(self, v, st, seen=None):
        """structural snapshot of a value: no references remain"""
        if isinstance(v, tuple):
            return tuple(self.freeze(x, st, seen) for x in v)
        if not isinstance(v, T):
            return v
        if v.op in ('k', 'sym', 'ext', 'mod', 'cls', 'absent', 'top'):
            return v
        if v.op == 'ref':
            seen = seen or ()
            if v.args[0] in seen:
                return mk('cycle', len(seen) - seen.index(v.args[0]))
            seen = seen + (v.args[0],)
            o = st.obj(v)
            if o is None:
                return v
            if isinstance(o, Inst):
                if o.tag is not None:
                    b = st.base.get(v.args[0])
                    if b is None or o is b or all(b.fields.get(k) is x or (b.fields.get(k) is None and x is self.lazy_field(o, k))
                                                  for k, x in o.fields.items()):
                        return o.tag
                return mk('obj', o.cls.qual if o.cls else '?', tuple(
                    (k, self.freeze(x, st, seen)) for k, x in sorted(o.fields.items()) if x is not ABSENT),
                    ty=('obj', o.cls.qual) if o.cls else None)
            if isinstance(o, Seq):
                if o.tag is not None and o.pieces == (('sp', o.tag),):
                    return o.tag
                ps = self.freeze_pieces(o.pieces, st, seen)
                if o.kind == 'tuple' and all(p[0] == 'i' for p in ps):
                    return mk('tup', *[p[1] for p in ps])
                return mk('seq', o.kind, ps)
            if isinstance(o, Dic):
                if o.tag is not None and o.pieces == (('sp', o.tag),):
                    return o.tag
                return mk('dic', self.freeze_pieces(o.pieces, st, seen))
            return v
        if not self.has_ref(v):
            return v
        return subst(v, lambda x: self.freeze(x, st, seen) if x.op == 'ref' else None)

    def freeze_pieces(self, ps, st, seen):
        out = []
        for p in ps:
            if p[0] == 'i':
                out.append(('i', self.freeze(p[1], st, seen)))
            elif p[0] == 'if':
                out.append(('if', p[1], self.freeze_pieces(p[2], st, seen), self.freeze_pieces(p[3], st, seen)))
            elif p[0] == 'rep':
                out.append(('rep', p[1], self.freeze_pieces(p[2], st, seen)))
            else:
                out.append(p)
        return tuple(out)

    ref_cache = {}

    def has_ref(self, v):
        r = self.ref_cache.get(v)
        if r is None:
            r = False
            for a in v.args:
                if self._has_ref_any(a):
                    r = True
                    break
            self.ref_cache[v] = r
        return r

    def _has_ref_any(self, a):
        if isinstance(a, T):
            return a.op == 'ref' or self.has_ref(a)
        if isinstance(a, tuple):
            return any(self._has_ref_any(x) for x in a)
        return False
