"""Abstract interpreter over the syntax tree (value-numbering domain, gated joins,
loop summaries, inlined resolved calls).  It never imports or runs the analysed code."""
import ast
from .terms import *
from .state import *
from .model import *
from .out import *
from .expr import ExprMixin
from .access import AccessMixin
from .calls import CallMixin

import sys
sys.setrecursionlimit(20000)


MAX_STEPS = 3000000
MAX_UNROLL = 5000


class Interp(ExprMixin, AccessMixin, CallMixin):
    def __init__(self, project, cfg=None):
        self.p = project
        self.cfg = cfg or {}
        self.base = {}
        self.lazy = {}
        self.steps = 0
        self.callstack = []
        self.visited_fns = set()
        self.call_sites = 0
        self.loops = 0
        self.lid = 0
        self.uid = 0
        self.loopctx = []
        self.class_by_node = {}
        self.ftypes = self.cfg.get('ftypes', {})
        self.opaque = self.cfg.get('opaque', {})
        self.intrinsics = self.cfg.get('intrinsics', {})
        self.rec_unroll = self.cfg.get('rec_unroll', 12)
        self.trymode = 0
        self.local_cache = {}
        self.load_eff = {}
        self.load_dead = {}
        self.class_by_oid = {}
        from . import builtins as B
        self.B = B
        LAZY[0] = self.lazy_field
        self.load_state = State(self.base)

    # ------------------------------------------------------------ modules
    def load(self, name):
        m = self.p.modules.get(name)
        if m is None:
            return None
        if m.loaded or m.loading:
            return m
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
            if m.loaded or m.loading:
                return m
        m.loading = True
        st = self.load_state
        m.oid = new_oid()
        st.over[m.oid] = Inst(None, {'__name__': K('__main__' if name == self.cfg.get('main') else name), '__file__': K(m.rel)},
                              tag=mk('glob', name), where=m.rel)
        saved = (self.callstack, self.loopctx)
        self.callstack, self.loopctx = [], []
        fr = Frame({}, None, None, m)
        fo = new_oid()
        st.over[fo] = fr
        out = self.exec_block(m.tree.body, st, (m, None, m.oid))
        self.callstack, self.loopctx = saved
        m.loading = False
        m.loaded = True
        # promote to base
        t = self.single(out)
        if t is not st:
            st.become(t)
        if not self._any_loading():
            self.load_eff[name] = list(st.eff)
            self.load_dead[name] = st.dead
            self.base.update(st.over)
            st.over = {}
            st.eff = []
            st.pc = frozenset()
            st.dead = None
        # bind as attribute of the parent package
        if '.' in name:
            par, leaf = name.rsplit('.', 1)
            pm = self.p.modules.get(par)
            if pm is not None and pm.oid is not None:
                o = st.get(pm.oid)
                if leaf not in o.fields:
                    tgt = self.base if pm.oid in self.base else st.over
                    tgt[pm.oid] = o.put(leaf, mk('mod', name))
        return m

    def _any_loading(self):
        return any(x.loading for x in self.p.modules.values())

    def load_all(self, names):
        for n in names:
            if self.load(n) is None:
                raise AnalysisError('module %s is missing' % n)

    def state(self):
        return State(self.base)

    def single(self, out):
        """collapse an outcome tree ignoring the kinds (module bodies)"""
        if isinstance(out, Leaf):
            return out.st
        return merge_state(out.c, self.single(out.a), self.single(out.b))

    def lookup(self, qual):
        """resolve 'module:Class.attr' to a term; AnalysisError when missing"""
        mod, _, path = qual.partition(':')
        m = self.load(mod)
        if m is None:
            raise AnalysisError('anchor module %s is missing' % mod)
        st = self.state()
        v = mk('mod', mod)
        for part in path.split('.') if path else []:
            v2 = self.getattr_(v, part, st, None, quiet=True)
            if v2 is None or v2.op == 'top':
                raise AnalysisError('anchor %s is missing' % qual)
            v = v2
        return v

    # ------------------------------------------------------------ helpers
    def loc(self, node):
        m = self.curmod
        return '%s:%d' % (m.rel if m else '?', getattr(node, 'lineno', 0)) if node is not None else (m.rel if m else '?')

    curmod = None

    def fresh(self, op, *a, ty=None):
        self.uid += 1
        return mk(op, self.uid, *a, ty=ty)

    def unsupported(self, st, why, node):
        st.emit('top', (why,), self.loc(node))
        return top(why)

    def tick(self):
        self.steps += 1
        if self.steps > self.cfg.get('max_steps', MAX_STEPS):
            raise GiveUp('step budget exhausted')

    # ------------------------------------------------------------ symbolic inputs
    def sym(self, name, ty=None, tag=None):
        """a symbolic input value of the given type description"""
        term = tag if tag is not None else mk('sym', name, ty=None)
        return self.typed(term, ty)

    def typed(self, term, ty):
        if ty is None:
            return term
        if ty in ('int', 'num', 'half', 'bool', 'str', 'bytes', 'float'):
            if term.op in ('k',):
                return term
            return mk(term.op, *term.args, ty='num' if ty == 'float' else ty)
        if callable(ty):
            return ty(self, term)
        if isinstance(ty, tuple):
            if ty[0] in ('list', 'set', 'dict', 'tuple*'):
                t2 = mk(term.op, *term.args, ty=ty)
                if ty[0] == 'tuple*':
                    return t2
                key = ('seq', t2)
                oid = self.lazy.get(key)
                if oid is None:
                    oid = self.lazy[key] = new_oid()
                    if ty[0] == 'dict':
                        self.base[oid] = Dic((('sp', t2),), tag=t2)
                    else:
                        self.base[oid] = Seq(ty[0], (('sp', t2),), tag=t2)
                return Ref(oid)
            if ty[0] == 'obj':
                cls = self.lookup(ty[1])
                ci = cls.args[0]
                t2 = mk(term.op, *term.args, ty=('obj', ci.qual))
                key = ('inst', t2)
                oid = self.lazy.get(key)
                if oid is None:
                    oid = self.lazy[key] = new_oid()
                    self.base[oid] = Inst(ci, {}, tag=t2)
                return Ref(oid)
            if ty[0] == 'tup':
                return mk('tup', *[self.typed(mk('item', term, K(i)), x) for i, x in enumerate(ty[1])])
            if ty[0] == 'opt':
                return ite(mk('isnone', term, ty='bool'), NONE, self.typed(term, ty[1]))
            if ty[0] == 'enum':
                ci = self.lookup(ty[1]).args[0]
                return mk('enum', ci, mk('enumval', term, ty='int'))
            if ty[0] == 'const':
                return ty[1]
        return mk(term.op, *term.args, ty=ty)

    def lazy_field(self, inst, name):
        """initial value of a field of a symbolic instance"""
        if inst.cls is not None:
            for c in inst.cls.mro:
                if (c.name, name) in self.ftypes:
                    return self.typed(mk('attr', inst.tag, name), self.ftypes[(c.name, name)])
        if ('*', name) in self.ftypes:
            return self.typed(mk('attr', inst.tag, name), self.ftypes[('*', name)])
        return mk('attr', inst.tag, name)

    # ------------------------------------------------------------ forks & joins
    def fork(self, c, fa, fb, st):
        """evaluate fa under c and fb under not c, join into st, return joined value"""
        d = decide(c, st.pc)
        if d is True:
            return fa(st)
        if d is False:
            return fb(st)
        A = st.clone()
        A.pc = facts_with(st.pc, c, True)
        B = st.clone()
        B.pc = facts_with(st.pc, c, False)
        va = fa(A)
        vb = fb(B)
        st.become(merge_state(c, A, B))
        if A.dead and not B.dead:
            return vb
        if B.dead and not A.dead:
            return va
        if isinstance(va, (T, tuple)) and isinstance(vb, T):
            return merge_val(c, va, vb)
        return va

    def normalize(self, out):
        """non-fall leaves with their path conditions first, one merged fall leaf"""
        if isinstance(out, Leaf):
            return out
        groups = {}
        order = []

        def collect(o, pc):
            if isinstance(o, Leaf):
                k = o.kind
                if k not in groups:
                    groups[k] = []
                    order.append(k)
                groups[k].append((pc, o))
            else:
                collect(o.a, and_(pc, o.c))
                collect(o.b, and_(pc, not_(o.c)))
        collect(out, TRUE)
        merged = {}
        for k in order:
            merged[k] = self._merge_kind(out, k)
        if len(order) == 1:
            return merged[order[0]]
        # non-fall first
        rank = ['return', 'break', 'continue', 'raise', 'fall']
        order.sort(key=rank.index)
        if order[-1] == 'raise':
            order = ['raise'] + order[:-1]
        if 'raise' in order[:-1] and order[-1] != 'fall':
            order.remove('raise')
            order.insert(len(order) - 1, 'raise')
        res = merged[order[-1]]
        for k in reversed(order[:-1]):
            c = or_(*[pc for pc, _ in groups[k]])
            res = self.fold_raise(c, merged[k], res) if k == 'raise' else Br(c, merged[k], res)
        return res

    def _merge_kind(self, o, k):
        """merge all leaves of one kind; others are ignored"""
        if isinstance(o, Leaf):
            return o if o.kind == k else None
        a = self._merge_kind(o.a, k)
        b = self._merge_kind(o.b, k)
        if a is None:
            if b is not None:
                b.st.pc = facts_with(b.st.pc, o.c, False)
            return b
        if b is None:
            a.st.pc = facts_with(a.st.pc, o.c, True)
            return a
        S = merge_state(o.c, a.st, b.st)
        v = None
        if a.val is not None or b.val is not None:
            v = merge_val(o.c, a.val or NONE, b.val or NONE)
        return Leaf(k, v, S)

    def map_fall(self, out, f):
        if isinstance(out, Leaf):
            if out.kind != 'fall':
                return out
            if out.st.dead:
                return Leaf('raise', out.st.dead, out.st)
            return f(out.st)
        a = self.map_fall(out.a, f)
        b = self.map_fall(out.b, f)
        return Br(out.c, a, b)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, ctx):
        """ctx = (module, frame_oid or None, namespace_oid or None)"""
        cur = Leaf('fall', None, st)
        for s in stmts:
            cur = self.map_fall(cur, lambda x: self.exec_stmt(s, x, ctx))
            cur = self.normalize(cur)
            if isinstance(cur, Leaf) and cur.kind != 'fall':
                break
        return cur

    def exec_stmt(self, s, st, ctx):
        self.tick()
        self.curmod = ctx[0]
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unsupported(st, 'statement %s' % type(s).__name__, s)
            return Leaf('fall', None, st)
        out = m(s, st, ctx)
        if out is None:
            out = Leaf('fall', None, st)
        if isinstance(out, Leaf) and out.kind == 'fall' and out.st.dead:
            return Leaf('raise', out.st.dead, out.st)
        return out

    def s_Pass(self, s, st, ctx):
        return None

    def s_Expr(self, s, st, ctx):
        if isinstance(s.value, ast.Constant):
            return None
        self.ev(s.value, st, ctx)

    def s_Assign(self, s, st, ctx):
        v = self.ev(s.value, st, ctx)
        for t in s.targets:
            self.assign(t, v, st, ctx)

    def s_AnnAssign(self, s, st, ctx):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, ctx), st, ctx)

    def s_AugAssign(self, s, st, ctx):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st, ctx)
            new = self.aug(s.op, old, self.ev(s.value, st, ctx), st, s)
            self.assign(t, new, st, ctx)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, ctx)
            old = self.getattr_(base, t.attr, st, s)
            new = self.aug(s.op, old, self.ev(s.value, st, ctx), st, s)
            self.setattr_(base, t.attr, new, st, s)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, ctx)
            idx = self.ev_index(t.slice, st, ctx)
            old = self.getitem(base, idx, st, s)
            new = self.aug(s.op, old, self.ev(s.value, st, ctx), st, s)
            self.setitem(base, idx, new, st, s)

    def aug(self, op, old, val, st, node):
        o = st.obj(old)
        if isinstance(o, Seq) and o.kind == 'list' and isinstance(op, ast.Add):
            self.B.seq_extend(self, old, val, st, node)
            return old
        if isinstance(o, Seq) and o.kind == 'set' and isinstance(op, ast.BitOr):
            self.B.seq_extend(self, old, val, st, node)
            return old
        return self.binop(op, old, val, st, node)

    def s_Return(self, s, st, ctx):
        v = self.ev(s.value, st, ctx) if s.value is not None else NONE
        if st.dead:
            return Leaf('raise', st.dead, st)
        return Leaf('return', v, st)

    def s_Break(self, s, st, ctx):
        return Leaf('break', None, st)

    def s_Continue(self, s, st, ctx):
        return Leaf('continue', None, st)

    def s_Raise(self, s, st, ctx):
        if s.exc is None:
            exc = mk('exc', 'reraise')
        else:
            v = self.ev(s.exc, st, ctx)
            exc = self.exc_name(v, st)
        st.emit('raise', (exc,), self.loc(s))
        st.dead = exc
        return Leaf('raise', exc, st)

    def exc_name(self, v, st):
        if v.op == 'excinst':
            return mk('exc', v.args[0])
        if v.op == 'ext':
            return mk('exc', v.args[0])
        o = st.obj(v)
        if isinstance(o, Inst) and o.cls:
            return mk('exc', o.cls.name)
        if v.op == 'cls':
            return mk('exc', v.args[0].name)
        return mk('exc', 'Exception')

    def s_Assert(self, s, st, ctx):
        c = self.truth(self.ev(s.test, st, ctx), st, s)
        d = decide(c, st.pc)
        if d is True:
            return None
        exc = mk('exc', 'AssertionError')
        if d is False:
            st.emit('raise', (exc,), self.loc(s))
            st.dead = exc
            return Leaf('raise', exc, st)
        A = st.clone()
        A.emit('raise', (exc,), self.loc(s))
        A.dead = exc
        st.pc = facts_with(st.pc, c, True)
        return self.fold_raise(c, Leaf('fall', None, st), Leaf('raise', exc, A))

    def s_If(self, s, st, ctx):
        c = self.cond(s.test, st, ctx)
        if st.dead:
            return None
        d = decide(c, st.pc)
        if d is True:
            return self.exec_block(s.body, st, ctx)
        if d is False:
            return self.exec_block(s.orelse, st, ctx)
        A = st.clone()
        A.pc = facts_with(st.pc, c, True)
        B = st
        B.pc = facts_with(st.pc, c, False)
        oa = self.exec_block(s.body, A, ctx)
        ob = self.exec_block(s.orelse, B, ctx)
        return self.normalize(self.fold_raise(c, oa, ob))

    def fold_raise(self, c, oa, ob):
        """a branch which raises, outside every try/with, is recorded as an effect at the branching point"""
        if self.try_depth == 0:
            for x, y in ((oa, ob), (ob, oa)):
                if isinstance(x, Leaf) and x.kind == 'raise' and isinstance(y, Leaf) and y.kind != 'raise' \
                        and not y.st.dead and x.val is not mk('exc', 'diverge'):
                    x.st.dead = x.st.dead or x.val
                    return Leaf(y.kind, y.val, merge_state(c, oa.st, ob.st))
        return Br(c, oa, ob)

    try_depth = 0

    def s_With(self, s, st, ctx):
        self.try_depth += 1
        try:
            return self.s_With0(s, st, ctx)
        finally:
            self.try_depth -= 1

    def s_With0(self, s, st, ctx):
        mgrs = []
        for it in s.items:
            v = self.ev(it.context_expr, st, ctx)
            o = st.obj(v)
            ent = v
            if isinstance(o, Inst) and o.cls is not None:
                f = self.find_method(v, '__enter__', st)
                if f is not None:
                    ent = self.call(f, [], {}, st, it.context_expr)
            else:
                if not self.B.is_passive(v):
                    st.emit('enter', (v,), self.loc(s))
            mgrs.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ent, st, ctx)
        out = self.exec_block(s.body, st, ctx)

        def fin(o):
            if isinstance(o, Br):
                fin(o.a)
                fin(o.b)
                return
            for v in reversed(mgrs):
                ob = o.st.obj(v)
                if isinstance(ob, Inst) and ob.cls is not None:
                    f = self.find_method(v, '__exit__', o.st)
                    if f is not None and not o.st.dead:
                        self.call(f, [NONE, NONE, NONE], {}, o.st, s)
                elif not self.B.is_passive(v):
                    o.st.emit('exit', (v,), self.loc(s))
        fin(out)
        return out

    def s_Try(self, s, st, ctx):
        self.try_depth += 1
        try:
            return self.s_Try0(s, st, ctx)
        finally:
            self.try_depth -= 1

    def s_Try0(self, s, st, ctx):
        n0 = len(st.eff)
        pre = st.clone()
        out = self.exec_block(s.body, st, ctx)
        leaves = []

        def coll(o):
            if isinstance(o, Leaf):
                leaves.append(o)
            else:
                coll(o.a)
                coll(o.b)
        coll(out)
        # explicit raise leaves go to a matching handler
        names = []
        for h in s.handlers:
            names.append(self._handler_types(h, pre, ctx))

        def redirect(o):
            if isinstance(o, Br):
                return Br(o.c, redirect(o.a), redirect(o.b))
            if o.kind == 'raise' and s.handlers:
                for h, nm in zip(s.handlers, names):
                    if self._exc_matches(o.val, nm):
                        st2 = o.st
                        st2.dead = None
                        st2.emit('caught', (o.val,), self.loc(h))
                        if h.name:
                            self.assign(ast.copy_location(ast.Name(h.name, ast.Store()), h), mk('excval', o.val), st2, ctx)
                        return self.exec_block(h.body, st2, ctx)
                return o
            if o.kind == 'fall' and s.orelse:
                return self.exec_block(s.orelse, o.st, ctx)
            return o
        res = redirect(out)
        # implicit exceptions: effects produced inside may be swallowed; record handler summaries
        hs = []
        for h, nm in zip(s.handlers, names):
            H = pre.clone()
            H.eff = []
            ho = self.exec_block(h.body, H, ctx)
            kinds = set()

            def kk(o):
                if isinstance(o, Leaf):
                    kinds.add(o.kind)
                else:
                    kk(o.a)
                    kk(o.b)
            kk(ho)
            hs.append((tuple(nm), tuple(sorted(kinds)), tuple(self.single(ho).eff)))

        def wrap(o):
            if isinstance(o, Br):
                wrap(o.a)
                wrap(o.b)
                return
            if hs:
                body = tuple(o.st.eff[n0:])
                o.st.eff = o.st.eff[:n0] + [E('try', (body, tuple(hs)), self.loc(s))]
        wrap(res)
        if s.finalbody:
            def fin(o):
                if isinstance(o, Br):
                    return Br(o.c, fin(o.a), fin(o.b))
                d = o.st.dead
                o.st.dead = None
                fo = self.exec_block(s.finalbody, o.st, ctx)

                def back(x):
                    if isinstance(x, Br):
                        return Br(x.c, back(x.a), back(x.b))
                    if x.kind == 'fall':
                        x.st.dead = d
                        return Leaf(o.kind, o.val, x.st)
                    return x
                return back(fo)
            res = fin(res)
        return self.normalize(res)

    s_TryStar = s_Try

    def _handler_types(self, h, st, ctx):
        if h.type is None:
            return ['*']
        v = self.ev(h.type, st.clone(), ctx)
        vs = v.args if v.op == 'tup' else [v]
        out = []
        for x in vs:
            out.append(self.exc_name(x, st).args[0])
        return out

    def _exc_matches(self, exc, names):
        n = exc.args[0].split('.')[-1] if exc is not None and exc.op == 'exc' else 'Exception'
        for x in names:
            x = x.split('.')[-1]
            if x in ('*', 'BaseException', n):
                return True
            if x == 'Exception' and n not in ('SystemExit', 'KeyboardInterrupt', 'GeneratorExit'):
                return True
            if x == 'LookupError' and n in ('KeyError', 'IndexError'):
                return True
            if x == 'RuntimeError' and n == 'NotImplementedError':
                return True
        return False

    def s_Delete(self, s, st, ctx):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                base = self.ev(t.value, st, ctx)
                idx = self.ev_index(t.slice, st, ctx)
                self.B.delitem(self, base, idx, st, s)
            elif isinstance(t, ast.Name):
                if ctx[1] is not None:
                    st.set(ctx[1], st.get(ctx[1]).drop(t.id))
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, st, ctx)
                o = st.obj(base)
                if isinstance(o, Inst):
                    if o.tag is not None:
                        st.emit('delattr', (o.tag, t.attr), self.loc(s))
                    st.set(base.args[0], o.drop(t.attr))

    def s_Global(self, s, st, ctx):
        if ctx[1] is not None:
            f = st.get(ctx[1])
            st.set(ctx[1], Frame(f.vars, f.parent, f.fn, f.glob, f.globals_ | set(s.names), f.nonlocals))

    def s_Nonlocal(self, s, st, ctx):
        if ctx[1] is not None:
            f = st.get(ctx[1])
            st.set(ctx[1], Frame(f.vars, f.parent, f.fn, f.glob, f.globals_, f.nonlocals | set(s.names)))

    def s_Import(self, s, st, ctx):
        for a in s.names:
            if a.asname:
                self.bind(a.asname, self.modval(a.name), st, ctx)
            else:
                self.modval(a.name)
                self.bind(a.name.split('.')[0], self.modval(a.name.split('.')[0]), st, ctx)

    def modval(self, name):
        if name in self.p.modules:
            saved = self.curmod
            self.load(name)
            self.curmod = saved
            return mk('mod', name)
        return mk('ext', name)

    def s_ImportFrom(self, s, st, ctx):
        mod = s.module or ''
        if s.level:
            base = ctx[0].name.split('.')
            if not ctx[0].path.endswith('__init__.py'):
                base = base[:-1]
            base = base[:len(base) - (s.level - 1)]
            mod = '.'.join(base + ([mod] if mod else []))
        for a in s.names:
            if a.name == '*':
                mv = self.modval(mod)
                if mv.op == 'mod':
                    o = st.get(self.p.modules[mod].oid)
                    for k, v in o.fields.items():
                        if not k.startswith('_'):
                            self.bind(k, v, st, ctx)
                continue
            sub_ = mod + '.' + a.name
            mv = self.modval(mod)
            v = None
            if mv.op == 'mod':
                o = st.get(self.p.modules[mod].oid)
                v = o.fields.get(a.name) if o is not None else None
                if v is None and sub_ in self.p.modules:
                    v = self.modval(sub_)
                if v is None:
                    v = self.unsupported(st, 'import of unknown name %s' % sub_, s)
            else:
                v = self.B.ext_const(sub_) or mk('ext', sub_)
            self.bind(a.asname or a.name, v, st, ctx)

    def bind(self, name, v, st, ctx):
        self.assign(ast.Name(name, ast.Store()), v, st, ctx)

    def s_FunctionDef(self, s, st, ctx):
        owner = None
        qual = ctx[0].name + ':' + s.name
        if ctx[1] is None and ctx[2] is not None and ctx[2] != ctx[0].oid:
            owner = self.class_by_oid[ctx[2]]
            qual = owner.qual + '.' + s.name
        elif ctx[1] is not None:
            f = st.get(ctx[1]).fn
            qual = (f.qual if f else ctx[0].name) + '.<locals>.' + s.name
        fi = self.fninfo(s, s.name, qual, ctx[0], owner)
        defaults = tuple(self.ev(d, st, ctx) for d in s.args.defaults)
        kwd = tuple(self.ev(d, st, ctx) if d is not None else ABSENT for d in s.args.kw_defaults)
        v = mk('fn', fi, ctx[1], defaults, kwd)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, st, ctx)
            if dv.op == 'ext' and dv.args[0] in ('staticmethod', 'classmethod', 'property'):
                v = mk(dv.args[0], v)
            elif dv.op == 'ext' and dv.args[0].split('.')[-1] in ('wraps', 'lru_cache', 'cache', 'abstractmethod', 'contextmanager', 'total_ordering', 'cached_property'):
                if dv.args[0].split('.')[-1] == 'cached_property':
                    v = mk('property', v)
                fi.decos.append(dv.args[0])
            elif dv.op == 'fn':
                v = self.call(dv, [v], {}, st, d)
            elif isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
                pass
            else:
                fi.decos.append(show(dv))
        name = s.name
        if owner is not None and name.startswith('__') and not name.endswith('__'):
            name = '_%s%s' % (owner.name.lstrip('_'), name)
        self.bind(name, v, st, ctx)

    s_AsyncFunctionDef = s_FunctionDef

    def fninfo(self, node, name, qual, module, owner):
        fi = self.class_by_node.get(node)
        if fi is None:
            fi = self.class_by_node[node] = FnInfo(name, qual, node, module, owner)
        return fi

    def s_ClassDef(self, s, st, ctx):
        qual = ctx[0].name + ':' + s.name
        if ctx[1] is None and ctx[2] != ctx[0].oid and ctx[2] is not None:
            qual = self.class_by_oid[ctx[2]].qual + '.' + s.name
        ci = ClassInfo(s.name, qual, s, ctx[0])
        for b in s.bases:
            bv = self.ev(b, st, ctx)
            if bv.op == 'cls':
                ci.bases.append(bv.args[0])
            elif bv.op == 'ext':
                ci.ext_bases.append(bv.args[0])
            else:
                ci.ext_bases.append('?')
        ci.compute_mro()
        ci.is_enum = any(x.split('.')[-1] in ('Enum', 'IntEnum', 'Flag', 'IntFlag') for c in ci.mro for x in c.ext_bases)
        ci.oid = new_oid()
        self.class_by_oid[ci.oid] = ci
        st.set(ci.oid, Inst(None, {'__name__': K(s.name), '__module__': K(ctx[0].name), '__qualname__': K(s.name)},
                            tag=mk('clsns', ci), where=self.loc(s)))
        out = self.exec_block(s.body, st, (ctx[0], None, ci.oid))
        st2 = self.single(out)
        if st2 is not st:
            st.become(st2)
        if ci.is_enum:
            ns = st.get(ci.oid)
            for k, v in list(ns.fields.items()):
                if k.startswith('_') or v.op in ('fn', 'classmethod', 'staticmethod', 'property'):
                    continue
                ns = ns.put(k, mk('enumm', ci, k, v))
            st.set(ci.oid, ns)
        self.bind(s.name, mk('cls', ci), st, ctx)

    # ------------------------------------------------------------ loops
    def s_For(self, s, st, ctx):
        it = self.ev(s.iter, st, ctx)
        if st.dead:
            return None
        pieces = self.B.iter_pieces(self, it, st, s.iter)

        def body(v, x):
            self.assign(s.target, v, x, ctx)
            return self.exec_block(s.body, x, ctx)
        o = st.obj(it) if it.op == 'ref' else None
        if isinstance(o, (Seq, Dic)) and len(pieces) > 1:
            out = self.run_live(it, o, pieces, st, body, s, ctx)
        else:
            out = self.run_pieces(pieces, st, body, s, ctx)
        return self.after_loop(out, s, ctx)

    def run_live(self, ref, first, pieces, st, body, node, ctx):
        """iterate over a container that the body may change"""
        if len(pieces) > MAX_UNROLL:
            raise GiveUp('loop too long to unroll')
        cur = Leaf('fall', None, st)
        more = [True]
        i = 0

        def step(x):
            o = x.obj(ref)
            ps = pieces
            if o is not first and o.pieces is not first.pieces and o.pieces != first.pieces:
                if isinstance(o, Dic) or o.kind == 'set':
                    a, b = self.sizes(first.pieces), self.sizes(o.pieces)
                    if a is None or b is None:
                        raise GiveUp('a container of unknown size changes while it is walked through')
                    if a != b:
                        self.fail(x, 'RuntimeError', 'the container changes size during iteration', node)
                        return Leaf('raise', x.dead, x)
                elif all(p[0] == 'i' for p in first.pieces) and all(p[0] == 'i' for p in o.pieces):
                    ps = o.pieces
                else:
                    raise GiveUp('a list of unknown length changes while it is walked through')
            if i >= len(ps):
                return Leaf('fall', None, x)
            more[0] = True
            return self.run_piece(ps[i], x, body, node, ctx)
        while more[0] and i <= MAX_UNROLL:
            more[0] = False
            cur = self.normalize(self.fold_continue(self.map_fall(cur, step)))
            if isinstance(cur, Leaf) and cur.kind != 'fall':
                break
            i += 1
        return cur

    @staticmethod
    def sizes(ps):
        return len(ps) if all(p[0] == 'i' for p in ps) else None

    def after_loop(self, out, s, ctx):
        def go(o):
            if isinstance(o, Br):
                return Br(o.c, go(o.a), go(o.b))
            if o.kind == 'fall' and s.orelse:
                return self.exec_block(s.orelse, o.st, ctx)
            if o.kind == 'break':
                return Leaf('fall', None, o.st)
            return o
        return self.normalize(go(out))

    def run_pieces(self, pieces, st, body, node, ctx, sub=None):
        """iterate body over structured content; returns tree whose kinds are
        fall / break / return / raise (continue folded into fall)"""
        cur = Leaf('fall', None, st)
        if len(pieces) > MAX_UNROLL:
            raise GiveUp('loop too long to unroll')
        for p in pieces:
            cur = self.map_fall(cur, lambda x: self.run_piece(p, x, body, node, ctx))
            cur = self.normalize(self.fold_continue(cur))
            if isinstance(cur, Leaf) and cur.kind != 'fall':
                break
        return cur

    def fold_continue(self, o):
        if isinstance(o, Br):
            return Br(o.c, self.fold_continue(o.a), self.fold_continue(o.b))
        if o.kind == 'continue':
            return Leaf('fall', None, o.st)
        return o

    def run_piece(self, p, st, body, node, ctx):
        self.tick()
        if p[0] == 'i':
            return body(p[1], st)
        if p[0] == 'if':
            d = decide(p[1], st.pc)
            if d is not None:
                return self.run_pieces(p[2] if d else p[3], st, body, node, ctx)
            A = st.clone()
            A.pc = facts_with(st.pc, p[1], True)
            B = st
            B.pc = facts_with(st.pc, p[1], False)
            return self.normalize(Br(p[1], self.run_pieces(p[2], A, body, node, ctx),
                                     self.run_pieces(p[3], B, body, node, ctx)))
        if p[0] == 'sp':
            lp = self.new_loop('for', self.B.len_of_term(p[1]))
            items = (('i', self.B.item_of_term(self, p[1], lp.idx())),)
            return self.summarise(lp, st, lambda x: self.run_pieces(items, x, body, node, ctx), node)
        if p[0] == 'rep':
            old = p[1]
            lp = self.new_loop(old.kind, old.count, old.cond)
            lp.exits = old.exits
            lp.carried = dict(old.carried)
            lp.origin = old
            ren = self.renamer(old, lp)
            items = self.rename_pieces(p[2], ren)
            return self.summarise(lp, st, lambda x: self.run_pieces(items, x, body, node, ctx), node)
        raise GiveUp('piece')

    def new_loop(self, kind, count=None, cond=None):
        self.lid += 1
        self.loops += 1
        return Loop(self.lid, kind, count, cond)

    def renamer(self, old, new):
        oi, ni = old.idx(), new.idx()
        memo = {}

        def f(x):
            if x is oi:
                return ni
            if x.op in ('lv', 'lout') and x.args[0] == old.lid:
                return mk(x.op, new.lid, *x.args[1:], ty=x.ty)
            return None
        return lambda t: subst(t, f, memo)

    def rename_pieces(self, ps, ren):
        out = []
        for p in ps:
            if p[0] == 'i':
                out.append(('i', tuple(ren(x) for x in p[1]) if isinstance(p[1], tuple) else ren(p[1])))
            elif p[0] == 'if':
                out.append(('if', ren(p[1]), self.rename_pieces(p[2], ren), self.rename_pieces(p[3], ren)))
            elif p[0] == 'sp':
                out.append(('sp', ren(p[1])))
            elif p[0] == 'rep':
                l2 = self.new_loop(p[1].kind, ren(p[1].count) if p[1].count is not None else None,
                                   ren(p[1].cond) if p[1].cond is not None else None)
                l2.exits = p[1].exits
                l2.origin = p[1]
                r2 = self.renamer(p[1], l2)
                out.append(('rep', l2, self.rename_pieces(self.rename_pieces(p[2], ren), r2)))
        return tuple(out)

    def s_While(self, s, st, ctx):
        # bounded unrolling while the condition is decided
        cur = st
        start = st.clone()
        n = 0
        while True:
            probe = cur.clone()
            c = self.cond(s.test, probe, ctx)
            d = decide(c, probe.pc)
            if d is False:
                cur.become(probe)
                out = Leaf('fall', None, cur)
                return self.after_loop(out, s, ctx)
            if d is True and (n < max(300, self.cfg.get('unroll', 0)) if not self._const_true(s.test) else n < self.cfg.get('unroll_true', 0)):
                cur.become(probe)
                out = self.exec_block(s.body, cur, ctx)
                out = self.normalize(self.fold_continue(out))
                n += 1
                if isinstance(out, Leaf) and out.kind == 'fall':
                    cur = out.st
                    continue
                if isinstance(out, Leaf):
                    return self.after_loop(out, s, ctx)
                # mixed outcomes: give up unrolling, treat remaining generically
                return self.normalize(self.map_fall(out, lambda x: self._while_generic(s, x, ctx)) if False else
                                      self._while_mixed(out, s, ctx, n))
            break
        if n and not self._const_true(s.test):
            # the number of turns is not known although the first are: the loop as a whole, when it is a counted one
            try:
                out = self._while_generic(s, start, ctx, counted=True)
                if out is not None:
                    return self.after_loop(out, s, ctx)
            except GiveUp:
                pass
        return self.after_loop(self._while_generic(s, cur, ctx), s, ctx)

    def _while_mixed(self, out, s, ctx, n):
        if n > 60:
            raise GiveUp('while unrolling')
        res = self.map_fall(out, lambda x: self.s_While_noafter(s, x, ctx, n))
        return self.after_loop(self.normalize(res), s, ctx)

    def s_While_noafter(self, s, st, ctx, n):
        probe = st.clone()
        c = self.cond(s.test, probe, ctx)
        d = decide(c, probe.pc)
        if d is False:
            return Leaf('fall', None, probe)
        if d is True and n < 60:
            out = self.normalize(self.fold_continue(self.exec_block(s.body, probe, ctx)))
            return self.normalize(self.map_fall(out, lambda x: self.s_While_noafter(s, x, ctx, n + 1)))
        return self._while_generic(s, st, ctx)

    def _const_true(self, e):
        return isinstance(e, ast.Constant) and bool(e.value)

    def _while_generic(self, s, st, ctx, counted=False):
        lp = self.new_loop('while')

        def body(x):
            c = self.cond(s.test, x, ctx)
            lp.cond = c
            x.pc = facts_with(x.pc, c, True)
            return self.fold_continue(self.exec_block(s.body, x, ctx))

        def post(x):
            # the condition is false on normal exit
            if not self._const_true(s.test):
                y = x.clone()
                y.eff = []
                c = self.cond(s.test, y, ctx)
                x.pc = facts_with(x.pc, c, False)
        out = self.summarise(lp, st, body, s, post=post, test=s.test, ctx=ctx)
        return None if counted and lp.kind != 'for' else out

    # -- loop summary
    def summarise(self, lp, st, run_body, node, post=None, test=None, ctx=None):
        start_sid = mk('mark', lp.lid).sid
        st0 = st
        carried = {}     # loc -> ('sym', head) | ('ind', init, step)
        self.loopctx.append(lp)
        try:
            for attempt in range(9):
                st_in = st0.clone()
                st_in.eff = []
                for locn, info in carried.items():
                    self.write_loc(st_in, locn, info[1])
                n_over = dict(st_in.over)
                if test is not None:
                    lp.cond = None
                out = self.normalize(self.fold_continue(run_body(st_in)))
                falls = self._merge_kind(out, 'fall')
                changed = False
                if falls is not None:
                    so = falls.st
                    for locn, old, new in self.diff(n_over, st0, so):
                        if locn in carried:
                            info = carried[locn]
                            if info[0] == 'ind':
                                exp = add(info[1], info[2])
                                if new is not exp:
                                    # induction hypothesis fails -> opaque
                                    carried[locn] = ('sym', info[3], None, None)
                                    changed = True
                            elif info[0] == 'sym' and attempt < 5 and isinstance(new, T) and is_numeric(new):
                                d = sub(new, info[1])
                                if self.invariant(d, start_sid, lp) and info[2] != 'final':
                                    init = self.read_loc(st0, locn)
                                    carried[locn] = ('ind', add(init, mul(d, lp.idx())), d, info[1])
                                    changed = True
                            continue
                        init = self.read_loc(st0, locn)
                        ty = None
                        if isinstance(init, T) and isinstance(new, T):
                            if is_numeric(init) and is_numeric(new):
                                ty = 'int' if is_int(init) and is_int(new) else ('bool' if is_bool(init) and is_bool(new) else 'num')
                                if is_bool(init) and is_bool(new):
                                    ty = 'bool'
                            elif init.ty == new.ty:
                                ty = init.ty
                        head = mk('lv', lp.lid, self.locname(locn), ty=ty)
                        if locn[1] in ('l', 'd'):
                            carried[locn] = ('sym', (('sp', head),), None, None)
                        else:
                            carried[locn] = ('sym', head, None, None)
                        changed = True
                if not changed:
                    break
            else:
                raise GiveUp('loop summary does not stabilise')
        finally:
            self.loopctx.pop()
        # convert a while loop driven by an induction variable into a counted loop
        if lp.kind == 'while' and lp.cond is not None and test is not None:
            cnt = self.while_count(lp)
            if cnt is not None:
                lp.kind = 'for'
                lp.count = cnt
        # effects of the body with exit markers
        eff_tree = self.tree_eff(out)
        exits = []
        self.collect_exits(out, TRUE, exits)
        lp.exits = tuple((k, pc) for k, pc, _ in exits)
        res = st0
        finals = {}
        cinfo = []
        newst = st0.clone()
        has_exit = any(k in ('break', 'return') for k, _, _ in exits)
        if falls is not None:
            so = falls.st
            for locn, info in carried.items():
                init = self.read_loc(st0, locn)
                new = self.read_loc(so, locn)
                if info[0] == 'ind':
                    if lp.kind == 'for' and not has_exit:
                        fin = add(init, mul(info[2], lp.count))
                    else:
                        fin = mk('lout', lp.lid, self.locname(locn), ty=join_ty(info[1], init))
                        if locn[1] != 'l':
                            pass
                elif locn[1] in ('l', 'd'):
                    head = info[1]
                    if new[:1] == head and not has_exit:
                        added = new[1:]
                        fin = init + ((('rep', lp, added),) if added else ())
                    else:
                        fin = (('sp', mk('lout', lp.lid, self.locname(locn), ty=getattr(self._seqty(st0, locn), 'ty', None))),)
                else:
                    if new is info[1]:
                        fin = init
                    else:
                        fin = self.final_value(lp, init, info[1], new, has_exit, start_sid)
                finals[locn] = fin
                cinfo.append((self.locname(locn), init if isinstance(init, T) else None,
                              info[1] if isinstance(info[1], T) else None,
                              new if isinstance(new, T) else None, fin if isinstance(fin, T) else None))
                self.write_loc(newst, locn, fin)
            lp.carried = {c[0]: c[1:] for c in cinfo}
        pure = falls is not None and not eff_tree and not carried
        if eff_tree:
            newst.eff = list(st0.eff) + [E('loop', (lp, tuple(eff_tree), tuple(cinfo)), self.loc(node))]
        elif carried:
            pass
        if falls is None and not exits:
            # body always raises: the loop either runs zero times or raises
            if lp.kind == 'for':
                return Leaf('fall', None, newst)
        if post is not None:
            post(newst)
        fall = Leaf('fall', None, newst)
        if falls is not None:
            for oid, o in so.over.items():
                if oid not in newst.over and oid not in newst.base:
                    newst.over[oid] = o     # objects allocated in the body
        if lp.kind == 'while' and lp.cond is None and not any(k == 'break' for k, _, _ in exits) and test is not None and self._const_true(test):
            fall = None
        res = fall
        # early exits
        for k, pc, leaf in reversed(exits):
            if k == 'raise':
                continue
            est = newst.clone()
            for oid, o in leaf.st.over.items():
                if oid not in est.over and oid not in est.base:
                    est.over[oid] = o
            if pure:
                cterm = mk('exists', lp, pc, ty='bool')
            else:
                cterm = mk('loopexit', lp, k, pc, ty='bool')
            val = leaf.val
            for locn in self.locs_of(leaf.st, st0):
                cur = self.read_loc(leaf.st, locn)
                if locn in carried or cur != self.read_loc(st0, locn):
                    if isinstance(cur, T):
                        self.write_loc(est, locn, mk('atexit', lp, pc, cur, ty=cur.ty))
                    elif cur is not None:
                        self.write_loc(est, locn, (('sp', mk('atexit', lp, pc, K(self.locname(locn)))),))
            if val is not None and val.op not in ('k',):
                if self._mentions(val, lp):
                    val = self._wrap_exit(val, lp, pc)
            lf = Leaf(k, val, est)
            if res is None:
                res = lf
            else:
                res = Br(cterm, lf, res)
        if res is None:
            newst.dead = mk('exc', 'diverge')
            res = Leaf('raise', newst.dead, newst)
        return res

    def _wrap_exit(self, val, lp, pc):
        if val.op == 'tup':
            return mk('tup', *[self._wrap_exit(v, lp, pc) if self._mentions(v, lp) else v for v in val.args])
        return mk('atexit', lp, pc, val, ty=val.ty)

    def _mentions(self, t, lp):
        idx = lp.idx()
        found = [False]

        def f(x):
            if x is idx or (x.op == 'lv' and x.args[0] == lp.lid) or x.op == 'ref':
                found[0] = True
            return None
        subst(t, f)
        return found[0]

    def _seqty(self, st, locn):
        o = st.get(locn[0])
        return o.tag

    def collect_exits(self, o, pc, out):
        if isinstance(o, Br):
            self.collect_exits(o.a, and_(pc, o.c), out)
            self.collect_exits(o.b, and_(pc, not_(o.c)), out)
            return
        if o.kind in ('break', 'return', 'raise'):
            out.append((o.kind, pc, o))

    def tree_eff(self, o):
        """effects of a loop body; exits are marked"""
        if isinstance(o, Leaf):
            e = list(o.st.eff)
            if o.kind in ('break', 'return'):
                e.append(E('leave', (o.kind,), None))
            return e
        return merge_eff(o.c, self.tree_eff(o.a), self.tree_eff(o.b))

    def while_count(self, lp):
        c = lp.cond
        if c.op == 'le0':
            p = poly_of(c.args[0])
            m = ((lp.idx(), 1),)
            if m in p and p[m] > 0 and is_int(c.args[0]):
                k = p.pop(m)
                if any(lp.idx() is a for mono in p for a, _ in mono):
                    return None
                rest = from_poly(p)
                if self._mentions(rest, lp):
                    return None
                # k*i + rest <= 0  for i = 0.. ; count = floor(-rest/k)+1
                return add(floor(div(neg(rest), K(int(k)))), K(1)) if k.denominator == 1 else None
        return None

    def final_value(self, lp, init, head, new, has_exit, start_sid):
        """value after the loop of a non-inductive variable"""
        if not has_exit and lp.kind == 'for' and is_numeric(new) and is_numeric(head):
            d = sub(new, head)
            if not self._mentions_term(d, head):
                return add(init, mk('sumover', lp, d, ty='int' if is_int(d) else 'num'))
        if not has_exit and is_bool(new) and not self._mentions_term(new, head):
            pass
        if not has_exit and lp.kind == 'for' and not self._mentions_term(new, head) and not self._mentions_lv(new, lp):
            # last value (if any iteration ran)
            return mk('lastof', lp, init, new, ty=join_ty(init, new))
        if not has_exit and is_bool(new) and is_bool(init) and is_bool(head):
            # sticky flags: new = head or c / head and c
            if new.op == 'or' and head in new.args and lp.kind == 'for':
                c = or_(*[x for x in new.args if x is not head])
                if not self._mentions_lv(c, lp):
                    return or_(init, mk('exists', lp, c, ty='bool'))
            if new.op == 'and' and head in new.args and lp.kind == 'for':
                c = and_(*[x for x in new.args if x is not head])
                if not self._mentions_lv(c, lp):
                    return and_(init, not_(mk('exists', lp, not_(c), ty='bool')))
        return mk('lout', lp.lid, head.args[1] if head.op == 'lv' else '?', init, new, ty=join_ty(init, new))

    def _mentions_lv(self, t, lp):
        found = [False]

        def f(x):
            if x.op == 'lv' and x.args[0] == lp.lid:
                found[0] = True
            return None
        subst(t, f)
        return found[0]

    def _mentions_term(self, t, h):
        found = [False]

        def f(x):
            if x is h:
                found[0] = True
            return None
        subst(t, f)
        return found[0]

    def invariant(self, d, start_sid, lp):
        if isnum(d):
            return True
        return d.sid < start_sid

    def locname(self, locn):
        if locn[1] == 'v' or locn[1] == 'f':
            return locn[2]
        return '%s#%s' % (locn[1], locn[0])

    def locs_of(self, st, st0):
        res = []
        for oid, o in st.over.items():
            o0 = st0.get(oid)
            if o0 is None or o is o0:
                continue
            if isinstance(o, Inst):
                for k in o.fields:
                    if o.fields[k] is not o0.fields.get(k):
                        res.append((oid, 'f', k))
            elif isinstance(o, Frame):
                for k in o.vars:
                    if o.vars[k] is not o0.vars.get(k):
                        res.append((oid, 'v', k))
            elif isinstance(o, Seq):
                if o.pieces != o0.pieces:
                    res.append((oid, 'l'))
            elif isinstance(o, Dic):
                if o.pieces != o0.pieces:
                    res.append((oid, 'd'))
        return res

    def diff(self, n_over, st0, so):
        """locations whose value at the end of the body differs from its value at the head"""
        res = []
        for oid, o in so.over.items():
            o0 = n_over.get(oid)
            if o0 is None:
                o0 = st0.base.get(oid)
            if o0 is None or o is o0:
                continue
            if isinstance(o, Inst):
                for k, v in o.fields.items():
                    w = o0.fields.get(k)
                    if w is None and o0.tag is not None and o0.cls is not None:
                        w = self.lazy_field(o0, k)
                    if v is not w:
                        res.append(((oid, 'f', k), w, v))
            elif isinstance(o, Frame):
                for k, v in o.vars.items():
                    w = o0.vars.get(k)
                    if w is None:
                        # variable first assigned inside the body: local to the iteration
                        if st0.get(oid) is not None and k not in st0.get(oid).vars:
                            res.append(((oid, 'v', k), ABSENT, v)) if False else None
                        continue
                    if v is not w:
                        res.append(((oid, 'v', k), w, v))
            elif isinstance(o, Seq):
                if o.pieces != o0.pieces:
                    res.append(((oid, 'l'), o0.pieces, o.pieces))
            elif isinstance(o, Dic):
                if o.pieces != o0.pieces:
                    res.append(((oid, 'd'), o0.pieces, o.pieces))
        return res

    def read_loc(self, st, locn):
        o = st.get(locn[0])
        if o is None:
            return None
        if locn[1] == 'f':
            v = o.fields.get(locn[2])
            if v is None:
                v = self.lazy_field(o, locn[2]) if o.tag is not None and o.cls is not None else ABSENT
            return v
        if locn[1] == 'v':
            return o.vars.get(locn[2], ABSENT)
        return o.pieces

    def write_loc(self, st, locn, v):
        o = st.get(locn[0])
        if locn[1] in ('f', 'v'):
            st.set(locn[0], o.put(locn[2], v))
        else:
            st.set(locn[0], o.with_(v))
