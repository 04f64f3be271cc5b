"""Calls: argument binding, inlining, recursion, instantiation (mixin of Interp)."""
import ast
from .terms import *
from .state import *
from .model import *
from .out import *

MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'add', 'update', 'discard', 'sort', 'reverse',
            'setdefault', 'popitem'}


class CallMixin:
    def e_Call(self, e, st, ctx):
        if isinstance(e.func, ast.Name) and e.func.id in ('super', 'locals', 'globals', 'vars', 'dir'):
            r = self.frame_builtin(e, st, ctx)
            if r is not None:
                return r
        f = self.ev(e.func, st, ctx)
        if st.dead:
            return top('dead')
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, ctx)
                vs = self.B.unpack(self, v, None, st, a)
                if vs is None:
                    args.append(mk('star', v))
                else:
                    args.extend(vs)
            else:
                args.append(self.ev(a, st, ctx))
            if st.dead:
                return top('dead')
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, st, ctx)
            if st.dead:
                return top('dead')
            if k.arg is not None:
                kw[k.arg] = v
            else:
                o = st.obj(v)
                if isinstance(o, Dic) and all(p[0] == 'i' and iskt(p[1][0], 'str') for p in o.pieces):
                    for p in o.pieces:
                        kw[kv(p[1][0])] = p[1][1]
                else:
                    kw['**'] = v
        self.curmod = ctx[0]
        return self.call(f, args, kw, st, e)

    def frame_builtin(self, e, st, ctx):
        n = e.func.id
        if self.read_name(n, st, ctx) is not mk('ext', n):
            return None
        if n == 'super':
            if e.args:
                a = [self.ev(x, st, ctx) for x in e.args]
                if a[0].op == 'cls':
                    return mk('super', a[0].args[0], a[1])
                return None
            oid = ctx[1]
            while oid is not None:
                fn = self.frame_fn.get(oid)
                if fn is not None and fn.owner is not None:
                    p = fn.node.args.args
                    return mk('super', fn.owner, st.get(oid).vars[p[0].arg])
                oid = st.get(oid).parent
            return None
        if n == 'globals':
            o = st.get(ctx[0].oid)
            return st.alloc(Dic(tuple(('i', (K(k), v)) for k, v in o.fields.items())))
        if n in ('locals', 'dir', 'vars') and not e.args:
            o = st.get(ctx[1]).vars if ctx[1] is not None else st.get(ctx[2]).fields
            return st.alloc(Dic(tuple(('i', (K(k), v)) for k, v in o.items() if not k.startswith('$'))))
        return None

    # ------------------------------------------------------------ dispatch
    def call(self, f, args, kw, st, node):
        if st.dead:
            return top('dead')
        self.call_sites += 1
        op = f.op
        if op == 'fn':
            return self.call_fn(f, args, kw, st, node)
        if op == 'bm':
            return self.call(f.args[1], [f.args[0]] + list(args), kw, st, node)
        if op == 'cls':
            return self.instantiate(f.args[0], args, kw, st, node)
        if op in ('classmethod', 'staticmethod'):
            return self.call(f.args[0], args, kw, st, node)
        if op == 'ite':
            return self.fork(f.args[0], lambda x: self.call(f.args[1], args, kw, x, node),
                             lambda x: self.call(f.args[2], args, kw, x, node), st)
        if op == 'ext':
            return self.B.call_ext(self, f.args[0], args, kw, st, node)
        if op == 'bmeth' or (op == 'attr' and len(f.args) == 2 and isinstance(f.args[1], str)):
            return self.B.call_method(self, f.args[0], f.args[1], args, kw, st, node)
        if op == 'ref':
            g = self.find_method(f, '__call__', st)
            if g is not None:
                return self.call(g, args, kw, st, node)
        if op == 'passive':
            return f
        if op == 'top':
            st.emit('top', ('call of ' + str(f.args[0]),), self.loc(node))
            return top('call of unknown')
        if f is NONE or op in ('k', 'tup', 'enumm', 'mod'):
            return self.fail(st, 'TypeError', 'object is not callable: %s' % show(f), node)
        if op == 'extattr' and f.args[0].op == 'cls':      # inherited from a class outside the package
            for c in f.args[0].args[0].mro:
                h = self.intrinsics.get(c.qual + '.' + f.args[1])
                v = h(self, args, kw, st, node) if h is not None else None
                if v is not None:
                    return v
        return self.opaque_call(self.freeze(f, st), args, kw, st, node)

    def opaque_call(self, fterm, args, kw, st, node, ty=None, effect=True):
        fa = tuple(self.freeze(a, st) for a in args)
        fk = tuple((k, self.freeze(v, st)) for k, v in sorted(kw.items()))
        if effect:
            self.uid += 1
            r = mk('ret', fterm, fa, fk, self.uid)
            st.emit('call', (fterm, fa, fk, r), self.loc(node))
        else:
            r = mk('ret', fterm, fa, fk)
        return self.typed(r, ty)

    # ------------------------------------------------------------ functions
    def bind_args(self, fi, f, args, kw, st, node):
        a = fi.node.args
        vars_ = {}
        pos = list(a.posonlyargs) + list(a.args)
        args = list(args)
        if any(x.op == 'star' for x in args):
            if a.vararg is not None and len([x for x in args if x.op != 'star']) >= len(pos):
                pass
            else:
                # forward *rest to a function with named parameters: unknown binding
                pre = []
                for x in args:
                    if x.op == 'star':
                        break
                    pre.append(x)
                rest = [x for x in args if x.op == 'star'][0].args[0]
                i = len(pre)
                while i < len(pos) and pos[i].arg not in kw:
                    pre.append(self.B.getitem(self, rest, K(i - len(pre) if False else i - 0), st, node))
                    i += 1
                args = pre
        for i, p in enumerate(pos):
            if i < len(args):
                if p.arg in kw:
                    return self.bad_call(fi, 'multiple values for %s' % p.arg, st, node)
                vars_[p.arg] = args[i]
        extra = args[len(pos):]
        if a.vararg is not None:
            ps = []
            for x in extra:
                if x.op == 'star':
                    ps.extend(self.B.iter_pieces(self, x.args[0], st, node))
                else:
                    ps.append(('i', x))
            if all(p[0] == 'i' for p in ps):
                vars_[a.vararg.arg] = mk('tup', *[p[1] for p in ps])
            else:
                vars_[a.vararg.arg] = st.alloc(Seq('tuple', ps))
        elif extra:
            return self.bad_call(fi, 'takes %d positional arguments but %d were given' % (len(pos), len(args)), st, node)
        kw = dict(kw)
        dstar = kw.pop('**', None)
        names = [p.arg for p in pos] + [p.arg for p in a.kwonlyargs]
        rest = []
        for k, v in kw.items():
            if k in names:
                vars_[k] = v
            elif a.kwarg is not None:
                rest.append(('i', (K(k), v)))
            else:
                return self.bad_call(fi, 'unexpected keyword argument %s' % k, st, node)
        if dstar is not None:
            ob = st.obj(dstar)
            for n in names:
                if n not in vars_:
                    vars_[n] = mk('kwopt', self.freeze(dstar, st), n) if ob is None else self.B.dict_get(
                        self, dstar, K(n), None, st, node)
            if a.kwarg is not None:
                rest.append(('sp', self.freeze(dstar, st)))
        if a.kwarg is not None:
            vars_[a.kwarg.arg] = st.alloc(Dic(tuple(rest)))
        defaults = f.args[2]
        for p, d in zip(pos[len(pos) - len(defaults):], defaults):
            if p.arg not in vars_:
                vars_[p.arg] = d
        for p, d in zip(a.kwonlyargs, f.args[3]):
            if p.arg not in vars_ and d is not ABSENT:
                vars_[p.arg] = d
        for n in names:
            if n not in vars_:
                return self.bad_call(fi, 'missing argument %s' % n, st, node)
        return vars_

    def bad_call(self, fi, why, st, node):
        self.fail(st, 'TypeError', '%s() %s' % (fi.qual, why), node)
        return None

    def call_fn(self, f, args, kw, st, node):
        fi = f.args[0]
        h = self.intrinsics.get(fi.qual)
        if h is not None:
            r = h(self, args, kw, st, node)
            if r is not None:
                return r
        if fi.qual in self.opaque:
            ty = self.opaque[fi.qual]
            return self.opaque_call(mk('fnname', fi.qual), args, kw, st, node, ty)
        vars_ = self.bind_args(fi, f, args, kw, st, node)
        if vars_ is None:
            return top('bad call')
        depth = sum(1 for c in self.callstack if c is fi)
        if depth:
            lim = self.rec_unroll if self._unrollable(vars_, st) else self.cfg.get('rec_sym', 0)
            if fi.qual in self.cfg.get('rec', {}):
                lim = self.cfg['rec'][fi.qual]
            if depth > lim:
                return self.recursive_call(fi, vars_, args, st, node)
        if len(self.callstack) > 80:
            raise GiveUp('call depth')
        return self.inline(f, fi, vars_, st, node)

    def _unrollable(self, vars_, st):
        def const(v):
            if isk(v) or v.op in ('cls', 'fn', 'mod', 'ext', 'enumm', 'ref'):
                return True
            if v.op == 'tup':
                return all(const(x) for x in v.args)
            return False
        return all(const(v) for v in vars_.values())

    def recursive_call(self, fi, vars_, args, st, node):
        fa = tuple((k, self.freeze(v, st)) for k, v in sorted(vars_.items()))
        self.uid += 1
        r = mk('rec', fi.qual, fa, self.uid)
        aft = []
        # forget what the recursive activation may change
        mut = self.mutated_params(fi)
        for p, v in vars_.items():
            o = st.obj(v)
            if isinstance(o, (Seq, Dic)) and p in mut[0]:
                st.set(v.args[0], o.with_((('sp', mk('after', self.uid, p)),)))
            if isinstance(o, Inst):
                f2 = o
                for fld in mut[1].get(p, ()):
                    if fld in o.fields or o.tag is not None:
                        old = o.fields.get(fld)
                        if old is not None and old.op == 'passive':
                            continue        # progress bars and the like stay what they are
                        ty = old.ty if old is not None else None
                        if old is not None and is_numeric(old):
                            ty = 'int' if is_int(old) else 'num'
                        if old is not None and old.op == 'ref':
                            oo = st.obj(old)
                            if isinstance(oo, (Seq, Dic)):
                                st.set(old.args[0], oo.with_((('sp', mk('after', self.uid, p, fld)),)))
                                continue
                        aft.append(mk('after', self.uid, p, fld, ty=ty))
                        f2 = f2.put(fld, aft[-1])
                st.set(v.args[0], f2)
        st.emit('rec', (fi.qual, fa, r, tuple(aft)), self.loc(node))
        ty = self.cfg.get('rec_types', {}).get(fi.qual)
        return self.typed(r, ty)

    mut_cache = None

    def mutated_params(self, fi):
        """(params mutated as containers, {param: fields assigned}) through self-calls (transitive by name in the class)"""
        if self.mut_cache is None:
            self.mut_cache = {}
        r = self.mut_cache.get(fi)
        if r is not None:
            return r
        cont, flds = set(), {}
        names = [a.arg for a in fi.node.args.args]

        def root(n):
            while isinstance(n, (ast.Attribute, ast.Subscript)):
                n = n.value
            return n.id if isinstance(n, ast.Name) else None

        def scan(node, selfname, names, seen):
            for n in ast.walk(node):
                tg = []
                if isinstance(n, ast.Assign):
                    tg = n.targets
                elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                    tg = [n.target]
                for t in tg:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in names:
                        flds.setdefault(t.value.id if t.value.id != selfname else names[0], set()).add(t.attr)
                    if isinstance(t, ast.Subscript):
                        if isinstance(t.value, ast.Name) and t.value.id in names:
                            cont.add(t.value.id)
                        elif isinstance(t.value, ast.Attribute) and isinstance(t.value.value, ast.Name) and t.value.value.id in names:
                            flds.setdefault(t.value.value.id, set()).add(t.value.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    b = n.func.value
                    if n.func.attr in MUTATORS:
                        if isinstance(b, ast.Name) and b.id in names:
                            cont.add(b.id)
                        elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id in names:
                            flds.setdefault(b.value.id, set()).add(b.attr)
                    if isinstance(b, ast.Name) and b.id == selfname and fi.owner is not None:
                        attr = n.func.attr
                        for c in fi.owner.mro:
                            for m in c.node.body:
                                if isinstance(m, ast.FunctionDef) and m.name == attr and m not in seen:
                                    seen.add(m)
                                    sn = m.args.args[0].arg if m.args.args else None
                                    scan(m, sn, [sn], seen)
        scan(fi.node, names[0] if names else None, names, {fi.node})
        r = self.mut_cache[fi] = (cont, flds)
        return r

    def inline(self, f, fi, vars_, st, node):
        self.visited_fns.add(fi.qual)
        fo = new_oid()
        fr = Frame(vars_, f.args[1], fi, fi.module)
        self.frame_fn[fo] = fi
        ctx = (fi.module, fo, None)
        y = None
        if fi.is_gen:
            y = st.alloc(Seq('gen', (), where=fi.loc))
            vars_['$yield'] = y
        st.set(fo, fr)
        saved = self.curmod
        self.callstack.append(fi)
        try:
            if isinstance(fi.node, ast.Lambda):
                v = self.ev(fi.node.body, st, ctx)
                return v
            out = self.exec_block(fi.node.body, st, ctx)
        finally:
            self.callstack.pop()
            self.curmod = saved
        return self.finish_call(out, st, y)

    def finish_call(self, out, st, y):
        """join return/fall leaves, fold raises into the state"""
        def conv(o):
            if isinstance(o, Br):
                return Br(o.c, conv(o.a), conv(o.b))
            if o.kind == 'fall':
                return Leaf('return', NONE, o.st)
            return o
        out = conv(out)

        def join(o):
            if isinstance(o, Leaf):
                if o.kind == 'raise' and y is not None and o.val is mk('exc', 'diverge'):
                    o.st.dead = None
                    return o.st, y
                if o.kind == 'raise' and not o.st.dead:
                    o.st.dead = o.val
                return o.st, (top('dead') if o.kind == 'raise' else (o.val if o.val is not None else NONE))
            sa, va = join(o.a)
            sb, vb = join(o.b)
            S = merge_state(o.c, sa, sb)
            if sa.dead and not sb.dead:
                return S, vb
            if sb.dead and not sa.dead:
                return S, va
            if sa.dead and sb.dead:
                return S, va
            return S, merge_val(o.c, va, vb)
        S, v = join(out)
        if S is not st:
            st.become(S)
        return y if y is not None else v

    # ------------------------------------------------------------ classes
    def instantiate(self, ci, args, kw, st, node):
        h = self.intrinsics.get(ci.qual)
        if h is not None:
            r = h(self, args, kw, st, node)
            if r is not None:
                return r
        if ci.is_enum:
            return self.enum_lookup(ci, args[0] if args else NONE, st, node)
        if any(b in ('Exception', 'BaseException', 'ValueError', 'RuntimeError', 'KeyError') for c in ci.mro for b in c.ext_bases):
            return mk('excinst', ci.name, tuple(self.freeze(a, st) for a in args))
        if ci.qual in self.opaque:
            return self.opaque_call(mk('cls', ci), args, kw, st, node, self.opaque[ci.qual])
        r = st.alloc(Inst(ci, {}, where=self.loc(node)))
        init, c = self.class_attr(ci, '__init__', st)
        if init is not None and init.op == 'fn':
            self.call(mk('bm', r, init), args, kw, st, node)
        elif self.ext_based(ci):
            for i, a in enumerate(args):
                o = st.obj(r)
                st.set(r.args[0], o.put('$arg%d' % i, a))
        elif args or kw:
            self.fail(st, 'TypeError', '%s() takes no arguments' % ci.name, node)
        return r

    def enum_lookup(self, ci, v, st, node):
        if v.op == 'enumm' and v.args[0] is ci:
            return v
        if v.op == 'enum' and v.args[0] is ci:
            return v
        if v.op == 'ite':
            return self.fork(v.args[0], lambda x: self.enum_lookup(ci, v.args[1], x, node),
                             lambda x: self.enum_lookup(ci, v.args[2], x, node), st)
        ms = self.enum_members(ci, st)
        if isk(v) or (v.op == 'tup' and all(isk(x) for x in v.args)):
            for m in ms:
                if m.args[2] is v:
                    return m
                if isnum(v) and isnum(m.args[2]) and kv(m.args[2]) == kv(v):
                    return m
            return self.fail(st, 'ValueError', '%s is not a valid %s' % (show(v), ci.name), node)
        if v.op in ('enumm', 'enum') or isinstance(st.obj(v), (Seq, Dic, Inst)):
            return self.fail(st, 'ValueError', '%s is not a valid %s' % (show(v), ci.name), node)
        st.emit('enumcheck', (ci.qual, self.freeze(v, st)), self.loc(node))
        return mk('enum', ci, v)
