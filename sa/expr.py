"""Expression evaluation over the abstract domain (mixin of Interp)."""
import ast
from .terms import *
from .state import *
from .model import *
from .out import *

BUILTIN_NAMES = set('''len range enumerate zip reversed sorted any all isinstance hasattr getattr setattr sum min max abs
round ord chr int float str bytes bytearray bool list dict set tuple open print type map filter super id vars dir iter next repr
object Exception ValueError KeyError IndexError TypeError RuntimeError NotImplementedError AttributeError StopIteration
AssertionError OSError IOError ZeroDivisionError ArithmeticError LookupError NameError UnboundLocalError SystemExit
KeyboardInterrupt GeneratorExit BaseException FileNotFoundError UnicodeDecodeError UnicodeEncodeError UnicodeError OverflowError
staticmethod classmethod property frozenset divmod pow hash callable issubclass format globals locals slice delattr
NotImplemented Ellipsis Warning DeprecationWarning memoryview complex hex bin oct input iter EOFError FileExistsError
PermissionError exit quit'''.split())

BINDUNDER = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'truediv', 'FloorDiv': 'floordiv', 'Mod': 'mod',
             'Pow': 'pow', 'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor', 'LShift': 'lshift', 'RShift': 'rshift',
             'MatMult': 'matmul'}
ARITH = {'Add': add, 'Sub': sub, 'Mult': mul, 'Div': div, 'FloorDiv': floordiv, 'Mod': mod, 'Pow': power,
         'BitAnd': bitand, 'BitOr': bitor, 'BitXor': bitxor, 'LShift': shl, 'RShift': shr}
CMPDUNDER = {'Eq': '__eq__', 'NotEq': '__ne__', 'Lt': '__lt__', 'LtE': '__le__', 'Gt': '__gt__', 'GtE': '__ge__'}
CMPREFL = {'Eq': 'Eq', 'NotEq': 'NotEq', 'Lt': 'Gt', 'LtE': 'GtE', 'Gt': 'Lt', 'GtE': 'LtE'}


class ExprMixin:
    def ev(self, e, st, ctx):
        self.tick()
        self.curmod = ctx[0]
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            return self.unsupported(st, 'expression %s' % type(e).__name__, e)
        return m(e, st, ctx)

    def e_Constant(self, e, st, ctx):
        if e.value is Ellipsis:
            return mk('ext', 'Ellipsis')
        return K(e.value)

    def e_Name(self, e, st, ctx):
        v = self.read_name(e.id, st, ctx)
        if v is None:
            return self.fail(st, 'NameError', 'name %s is not defined' % e.id, e)
        if v is ABSENT:
            return self.fail(st, 'UnboundLocalError', 'name %s is unbound' % e.id, e)
        return self.maybe_absent(v, st, e, 'UnboundLocalError', e.id)

    def maybe_absent(self, v, st, node, exc, what):
        """a gated value one side of which is undefined: record the failing condition, keep the defined side"""
        if v.op != 'ite':
            return v
        a, b = v.args[1], v.args[2]
        if a is not ABSENT and b is not ABSENT:
            if a.op == 'ite' or b.op == 'ite':
                if self._has_absent(v):
                    d = decide(v.args[0], st.pc)
                    if d is not None:
                        return self.maybe_absent(a if d else b, st, node, exc, what)
                    c = v.args[0]
                    return self.fork(c, lambda x: self.maybe_absent(a, x, node, exc, what),
                                     lambda x: self.maybe_absent(b, x, node, exc, what), st)
            return v
        c = v.args[0]
        d = decide(c, st.pc)
        if d is True:
            v = a
        elif d is False:
            v = b
        else:
            bad = c if a is ABSENT else not_(c)
            st.emit('if', (bad, (E('raise', (mk('exc', exc), what), self.loc(node)),), ()), self.loc(node))
            st.pc = facts_with(st.pc, bad, False)
            v = b if a is ABSENT else a
            return self.maybe_absent(v, st, node, exc, what)
        if v is ABSENT:
            return self.fail(st, exc, '%s is undefined' % what, node)
        return self.maybe_absent(v, st, node, exc, what)

    def _has_absent(self, v):
        if v is ABSENT:
            return True
        return v.op == 'ite' and (self._has_absent(v.args[1]) or self._has_absent(v.args[2]))

    def fail(self, st, exc, what, node):
        """a definite exception"""
        x = mk('exc', exc)
        st.emit('raise', (x, what), self.loc(node))
        st.dead = x
        return top('%s: %s' % (exc, what))

    def read_name(self, name, st, ctx):
        oid = ctx[1]
        if oid is not None:
            f = st.get(oid)
            if name in f.globals_:
                oid = None
            else:
                while oid is not None:
                    f = st.get(oid)
                    if f is None:
                        break
                    if name in f.vars:
                        return f.vars[name]
                    if f.fn is not None and oid == ctx[1] and name not in f.nonlocals and name in self.locals_of(f.fn):
                        return ABSENT
                    oid = f.parent
        elif ctx[2] is not None:
            o = st.get(ctx[2])
            if name in o.fields:
                return o.fields[name]
        o = st.get(ctx[0].oid)
        if name in o.fields:
            return o.fields[name]
        if name in BUILTIN_NAMES:
            return mk('ext', name)
        if name == '__builtins__':
            return mk('ext', name)
        return None

    def locals_of(self, fi):
        r = self.local_cache.get(fi)
        if r is None:
            r = set()
            glob = set()
            if not isinstance(fi.node, ast.Lambda):
                stack = list(fi.node.body)
                while stack:
                    n = stack.pop()
                    if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                        r.add(n.name)
                        continue
                    if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        for w in ast.walk(n):
                            if isinstance(w, ast.NamedExpr):
                                r.add(w.target.id)
                        continue
                    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        r.add(n.id)
                    if isinstance(n, (ast.Global, ast.Nonlocal)):
                        glob |= set(n.names)
                    if isinstance(n, (ast.Import, ast.ImportFrom)):
                        for a in n.names:
                            r.add((a.asname or a.name).split('.')[0])
                    if isinstance(n, ast.ExceptHandler) and n.name:
                        r.add(n.name)
                    stack.extend(ast.iter_child_nodes(n))
            r -= glob
            self.local_cache[fi] = r
        return r

    # ------------------------------------------------------------ literals
    def elts(self, elts, st, ctx):
        """list of pieces for a display with stars"""
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, st, ctx)
                out.extend(self.B.iter_pieces(self, v, st, x))
            else:
                out.append(('i', self.ev(x, st, ctx)))
        return out

    def e_Tuple(self, e, st, ctx):
        ps = self.elts(e.elts, st, ctx)
        if all(p[0] == 'i' for p in ps):
            return mk('tup', *[p[1] for p in ps])
        return st.alloc(Seq('tuple', ps, where=self.loc(e)))

    def e_List(self, e, st, ctx):
        return st.alloc(Seq('list', self.elts(e.elts, st, ctx), where=self.loc(e)))

    def e_Set(self, e, st, ctx):
        return st.alloc(Seq('set', self.elts(e.elts, st, ctx), where=self.loc(e)))

    def e_Dict(self, e, st, ctx):
        r = st.alloc(Dic((), where=self.loc(e)))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.B.dict_update(self, r, self.ev(v, st, ctx), st, e)
            else:
                kk = self.ev(k, st, ctx)
                self.setitem(r, kk, self.ev(v, st, ctx), st, e)
        return r

    def e_JoinedStr(self, e, st, ctx):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(K(v.value))
            else:
                t = self.ev(v.value, st, ctx)
                spec = ''
                if v.format_spec is not None:
                    spec = ''.join(x.value if isinstance(x, ast.Constant) else '?' for x in v.format_spec.values)
                if v.conversion != -1:
                    parts.append(mk('fmt', self.freeze(t, st), '!' + chr(v.conversion) + spec, ty='str'))
                else:
                    parts.append(self.B.to_str(self, t, st, spec, e))
        return self.B.concat(parts)

    def e_FormattedValue(self, e, st, ctx):
        return self.B.to_str(self, self.ev(e.value, st, ctx), st, '', e)

    def e_Lambda(self, e, st, ctx):
        fi = self.fninfo(e, '<lambda>', ctx[0].name + ':<lambda@%d>' % e.lineno, ctx[0], None)
        defaults = tuple(self.ev(d, st, ctx) for d in e.args.defaults)
        kwd = tuple(self.ev(d, st, ctx) if d is not None else ABSENT for d in e.args.kw_defaults)
        return mk('fn', fi, ctx[1], defaults, kwd)

    def e_NamedExpr(self, e, st, ctx):
        v = self.ev(e.value, st, ctx)
        self.assign(e.target, v, st, ctx)
        return v

    def e_Starred(self, e, st, ctx):
        return self.ev(e.value, st, ctx)

    # ------------------------------------------------------------ comprehensions
    def comp(self, e, st, ctx, emit):
        fr = Frame({}, ctx[1], None, ctx[0])
        if ctx[1] is None:
            fr = Frame({}, None, None, ctx[0])
        fo = new_oid()
        st.set(fo, fr)
        cctx = (ctx[0], fo, ctx[2] if ctx[1] is None else None)
        if ctx[1] is None and ctx[2] is not None and ctx[2] != ctx[0].oid:
            # class-body comprehension: names of the class are not visible, first iterable is
            pass

        def level(i, x):
            if i == len(e.generators):
                emit(x, cctx)
                return Leaf_fall(x)
            g = e.generators[i]
            it = self.ev(g.iter, x, cctx if i else ctx)
            pieces = self.B.iter_pieces(self, it, x, g.iter)

            def body(v, y):
                self.assign(g.target, v, y, cctx)
                return conds(0, y)

            def conds(j, y):
                if j == len(g.ifs):
                    return level(i + 1, y)
                c = self.cond(g.ifs[j], y, cctx)
                d = decide(c, y.pc)
                if d is True:
                    return conds(j + 1, y)
                if d is False:
                    return Leaf_fall(y)
                A = y.clone()
                A.pc = facts_with(y.pc, c, True)
                B_ = y.clone()
                B_.pc = facts_with(y.pc, c, False)
                oa = conds(j + 1, A)
                return self.normalize(Br_(c, oa, Leaf_fall(B_)))
            return self.run_pieces(pieces, x, body, e, cctx)
        out = level(0, st)
        s2 = self.single(out)
        if s2 is not st:
            st.become(s2)

    def comp_seq(self, e, st, ctx, kind):
        r = st.alloc(Seq(kind, (), where=self.loc(e)))

        def emit(x, cctx):
            v = self.ev(e.elt, x, cctx)
            o = x.obj(r)
            if kind == 'set':
                self.B.set_add(self, r, v, x, e)
            else:
                x.set(r.args[0], o.with_(o.pieces + (('i', v),)))
        self.comp(e, st, ctx, emit)
        return r

    def e_ListComp(self, e, st, ctx):
        return self.comp_seq(e, st, ctx, 'list')

    def e_SetComp(self, e, st, ctx):
        return self.comp_seq(e, st, ctx, 'set')

    def e_GeneratorExp(self, e, st, ctx):
        return self.comp_seq(e, st, ctx, 'gen')

    def e_DictComp(self, e, st, ctx):
        r = st.alloc(Dic((), where=self.loc(e)))

        def emit(x, cctx):
            k = self.ev(e.key, x, cctx)
            v = self.ev(e.value, x, cctx)
            self.setitem(r, k, v, x, e)
        self.comp(e, st, ctx, emit)
        return r

    # ------------------------------------------------------------ yields
    def e_Yield(self, e, st, ctx):
        v = self.ev(e.value, st, ctx) if e.value is not None else NONE
        y = st.get(ctx[1]).vars['$yield']
        o = st.obj(y)
        st.set(y.args[0], o.with_(o.pieces + (('i', v),)))
        return NONE

    def e_YieldFrom(self, e, st, ctx):
        v = self.ev(e.value, st, ctx)
        y = st.get(ctx[1]).vars['$yield']
        ps = self.B.iter_pieces(self, v, st, e)
        o = st.obj(y)
        st.set(y.args[0], o.with_(o.pieces + tuple(ps)))
        return NONE

    # ------------------------------------------------------------ booleans
    def cond(self, e, st, ctx):
        """condition of a test expression as a boolean term"""
        if isinstance(e, ast.BoolOp):
            return self.boolop_cond(e, 0, st, ctx)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand, st, ctx))
        return self.truth(self.ev(e, st, ctx), st, e)

    def boolop_cond(self, e, i, st, ctx):
        c = self.cond(e.values[i], st, ctx)
        if i == len(e.values) - 1 or st.dead:
            return c
        isand = isinstance(e.op, ast.And)
        d = decide(c, st.pc)
        if d is not None:
            if d == isand:
                return self.boolop_cond(e, i + 1, st, ctx)
            return K(d)
        if isand:
            r = self.fork(c, lambda x: self.boolop_cond(e, i + 1, x, ctx), lambda x: FALSE, st)
        else:
            r = self.fork(c, lambda x: TRUE, lambda x: self.boolop_cond(e, i + 1, x, ctx), st)
        return r

    def e_BoolOp(self, e, st, ctx):
        def go(i, x):
            v = self.ev(e.values[i], x, ctx)
            if i == len(e.values) - 1 or x.dead:
                return v
            c = self.truth(v, x, e)
            if isinstance(e.op, ast.And):
                return self.fork(c, lambda y: go(i + 1, y), lambda y: FALSE if is_bool(v) else v, x)
            return self.fork(c, lambda y: TRUE if is_bool(v) else v, lambda y: go(i + 1, y), x)
        return go(0, st)

    def e_IfExp(self, e, st, ctx):
        c = self.cond(e.test, st, ctx)
        if st.dead:
            return top('dead')
        return self.fork(c, lambda x: self.ev(e.body, x, ctx), lambda x: self.ev(e.orelse, x, ctx), st)

    def truth(self, v, st, node=None):
        if is_bool(v):
            return v
        if isk(v):
            return K(bool(kv(v)))
        if is_numeric(v):
            return not_(eq0(v))
        if v.op == 'tup':
            return K(bool(v.args))
        if v.op == 'ite':
            return ite(v.args[0], self.truth(v.args[1], st, node), self.truth(v.args[2], st, node))
        if v.op == 'ref':
            o = st.obj(v)
            if isinstance(o, (Seq, Dic)):
                n = self.B.len_of(self, v, st, node)
                if n is not None:
                    return lt(ZERO, n)
                return mk('truthy', self.freeze(v, st), ty='bool')
            if isinstance(o, Inst):
                f = self.find_method(v, '__bool__', st)
                if f is not None:
                    return self.truth(self.call(f, [], {}, st, node), st, node)
                f = self.find_method(v, '__len__', st)
                if f is not None:
                    return self.truth(self.call(f, [], {}, st, node), st, node)
                return TRUE
        if v.op in ('fn', 'bm', 'cls', 'mod', 'enumm', 'bmeth', 'excinst'):
            if v.op == 'enumm' and any(x.split('.')[-1].startswith('Int') for c in v.args[0].mro for x in c.ext_bases):
                return self.truth(v.args[2], st, node)
            return TRUE
        if v.op == 'enum':
            return TRUE
        if v.ty in ('str', 'bytes') or (isinstance(v.ty, tuple)):
            if isinstance(v.ty, tuple) and v.ty[0] == 'obj':
                return TRUE
            return lt(ZERO, self.B.len_of_term(v))
        return mk('truthy', v, ty='bool')

    def e_UnaryOp(self, e, st, ctx):
        if isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand, st, ctx))
        v = self.ev(e.operand, st, ctx)
        return self.unary(type(e.op).__name__, v, st, e)

    def unary(self, op, v, st, node):
        if v.op == 'ite' and not is_numeric(v):
            return self.fork(v.args[0], lambda x: self.unary(op, v.args[1], x, node),
                             lambda x: self.unary(op, v.args[2], x, node), st)
        if v.op == 'ref' and isinstance(st.obj(v), Inst):
            f = self.find_method(v, {'USub': '__neg__', 'UAdd': '__pos__', 'Invert': '__invert__'}[op], st)
            if f is not None:
                return self.call(f, [], {}, st, node)
        if op == 'USub':
            return neg(v)
        if op == 'UAdd':
            return v
        if iskt(v, 'int'):
            return K(~kv(v))
        return sub(neg(v), K(1))

    # ------------------------------------------------------------ binary operators
    def e_BinOp(self, e, st, ctx):
        a = self.ev(e.left, st, ctx)
        b = self.ev(e.right, st, ctx)
        return self.binop(e.op, a, b, st, e)

    def is_objlike(self, v, st):
        return v.op in ('ref', 'enumm', 'enum', 'tup') or (v.op == 'k' and v.args[0] in ('str', 'bytes', 'NoneType'))

    def needs_split(self, v):
        """gated value whose branches are not plain numbers"""
        return v.op == 'ite' and not is_numeric(v) and not is_bool(v)

    def binop(self, op, a, b, st, node):
        if st.dead:
            return top('dead')
        opn = op if isinstance(op, str) else type(op).__name__
        if is_numeric(a) and is_numeric(b):
            r = self.arith(opn, a, b)
            return r
        for v, which in ((a, 0), (b, 1)):
            if self.needs_split(v) and self._splittable(v, st):
                if which == 0:
                    return self.fork(v.args[0], lambda x: self.binop(opn, v.args[1], b, x, node),
                                     lambda x: self.binop(opn, v.args[2], b, x, node), st)
                return self.fork(v.args[0], lambda x: self.binop(opn, a, v.args[1], x, node),
                                 lambda x: self.binop(opn, a, v.args[2], x, node), st)
        oa, ob = st.obj(a), st.obj(b)
        if isinstance(oa, Inst):
            f = self.find_method(a, '__%s__' % BINDUNDER[opn], st)
            if f is not None:
                r = self.call(f, [b], {}, st, node)
                if r.op == 'ext' and r.args[0] == 'NotImplemented' and isinstance(ob, Inst):
                    g = self.find_method(b, '__r%s__' % BINDUNDER[opn], st)
                    if g is not None:
                        return self.call(g, [a], {}, st, node)
                return r
        if isinstance(ob, Inst):
            f = self.find_method(b, '__r%s__' % BINDUNDER[opn], st)
            if f is not None:
                return self.call(f, [a], {}, st, node)
        if isinstance(oa, Inst) and oa.cls is not None and not oa.cls.ext_bases:
            return self.fail(st, 'TypeError', 'unsupported operand %s for %s' % (opn, oa.cls.name), node)
        if opn == 'Mod' and self.B.is_strlike(a):
            return self.B.str_binop(self, opn, a, b, st, node)
        if (isinstance(oa, (Seq, Dic)) or isinstance(ob, (Seq, Dic)) or a.op == 'tup' or b.op == 'tup'):
            return self.B.seq_binop(self, opn, a, b, st, node)
        if a.ty in ('str', 'bytes') or iskt(a, 'str', 'bytes') or iskt(b, 'str', 'bytes') or b.ty in ('str', 'bytes'):
            return self.B.str_binop(self, opn, a, b, st, node)
        if (a is NONE or b is NONE):
            return self.fail(st, 'TypeError', 'unsupported operand %s for None' % opn, node)
        if a.op == 'enumm' and is_numeric(a.args[2]) and self.int_enum(a.args[0]):
            return self.binop(opn, a.args[2], b, st, node)
        if b.op == 'enumm' and is_numeric(b.args[2]) and self.int_enum(b.args[0]):
            return self.binop(opn, a, b.args[2], st, node)
        if a.op == 'enumm' or b.op == 'enumm':
            return self.fail(st, 'TypeError', 'unsupported operand %s for enum member' % opn, node)
        if has_top(a) or has_top(b):
            return top('operand')
        # untyped symbolic values: treated as numbers (reported type assumptions come from cfg)
        return self.arith(opn, a, b)

    def _splittable(self, v, st):
        return True

    def int_enum(self, ci):
        return any(x.split('.')[-1] in ('IntEnum', 'IntFlag') for c in ci.mro for x in c.ext_bases)

    def arith(self, opn, a, b):
        f = ARITH.get(opn)
        if f is None:
            return top('operator ' + opn)
        if a.op == 'ite' and is_numeric(a) and opn in ('BitAnd', 'Mod', 'RShift', 'FloorDiv', 'LShift', 'BitOr') and isnum(b):
            return ite(a.args[0], self.arith(opn, a.args[1], b), self.arith(opn, a.args[2], b))
        return f(a, b)

    # ------------------------------------------------------------ comparisons
    def e_Compare(self, e, st, ctx):
        left = self.ev(e.left, st, ctx)

        def go(i, l, x):
            r = self.ev(e.comparators[i], x, ctx)
            c = self.compare(type(e.ops[i]).__name__, l, r, x, e)
            if i == len(e.ops) - 1 or x.dead:
                return c
            return self.fork(c, lambda y: go(i + 1, r, y), lambda y: FALSE, x)
        return go(0, left, st)

    def compare(self, op, a, b, st, node):
        if st.dead:
            return top('dead')
        if op in ('Is', 'IsNot'):
            r = self.identical(a, b, st)
            return r if op == 'Is' else not_(r)
        if op in ('In', 'NotIn'):
            r = self.contains(b, a, st, node)
            return r if op == 'In' else not_(r)
        if is_numeric(a) and is_numeric(b):
            return self.num_cmp(op, a, b)
        for v, which in ((a, 0), (b, 1)):
            if v.op == 'ite' and not is_bool(v) and not is_numeric(v):
                if which == 0:
                    return self.fork(v.args[0], lambda x: self.compare(op, v.args[1], b, x, node),
                                     lambda x: self.compare(op, v.args[2], b, x, node), st)
                return self.fork(v.args[0], lambda x: self.compare(op, a, v.args[1], x, node),
                                 lambda x: self.compare(op, a, v.args[2], x, node), st)
        if op in ('Eq', 'NotEq'):
            r = self.equal(a, b, st, node)
            return r if op == 'Eq' else not_(r)
        oa, ob = st.obj(a), st.obj(b)
        if isinstance(oa, Inst):
            f = self.find_method(a, CMPDUNDER[op], st)
            if f is not None:
                return self.truth(self.call(f, [b], {}, st, node), st, node)
        if isinstance(ob, Inst):
            f = self.find_method(b, CMPDUNDER[CMPREFL[op]], st)
            if f is not None:
                return self.truth(self.call(f, [a], {}, st, node), st, node)
        if isk(a) and isk(b):
            try:
                va, vb = kv(a), kv(b)
                return K({'Lt': va < vb, 'LtE': va <= vb, 'Gt': va > vb, 'GtE': va >= vb}[op])
            except TypeError:
                return self.fail(st, 'TypeError', 'unorderable', node)
        if a.op == 'tup' and b.op == 'tup':
            return self.tup_cmp(op, a, b, st, node)
        if a is NONE or b is NONE:
            return self.fail(st, 'TypeError', 'ordering with None', node)
        if (isinstance(oa, Inst) and not oa.cls.ext_bases and is_numeric(b)) or \
           (isinstance(ob, Inst) and not ob.cls.ext_bases and is_numeric(a)):
            return self.fail(st, 'TypeError', 'ordering undefined', node)
        if has_top(a) or has_top(b):
            return top('operand')
        return self.num_cmp(op, a, b)

    def tup_cmp(self, op, a, b, st, node):
        strict = op in ('Lt', 'Gt')
        o1 = 'Lt' if op in ('Lt', 'LtE') else 'Gt'

        def go(i):
            if i >= len(a.args) or i >= len(b.args):
                la, lb = len(a.args), len(b.args)
                return K({'Lt': la < lb, 'LtE': la <= lb, 'Gt': la > lb, 'GtE': la >= lb}[op])
            c = self.compare(o1, a.args[i], b.args[i], st, node)
            q = self.equal(a.args[i], b.args[i], st, node)
            return or_(c, and_(q, go(i + 1)))
        return go(0)

    def num_cmp(self, op, a, b):
        if op == 'Eq':
            return self.num_equal(a, b)
        if op == 'NotEq':
            return not_(self.num_equal(a, b))
        if a.op == 'ite' and isnum(b):
            return ite(a.args[0], self.num_cmp(op, a.args[1], b), self.num_cmp(op, a.args[2], b))
        if b.op == 'ite' and isnum(a):
            return ite(b.args[0], self.num_cmp(op, a, b.args[1]), self.num_cmp(op, a, b.args[2]))
        if op == 'Lt':
            return lt(a, b)
        if op == 'LtE':
            return le(a, b)
        if op == 'Gt':
            return lt(b, a)
        return le(b, a)

    def num_equal(self, a, b):
        if a is b:
            return TRUE
        if a.op == 'ite' and isnum(b):
            return ite(a.args[0], self.num_equal(a.args[1], b), self.num_equal(a.args[2], b))
        if b.op == 'ite' and isnum(a):
            return ite(b.args[0], self.num_equal(a, b.args[1]), self.num_equal(a, b.args[2]))
        return num_eq(a, b)

    def equal(self, a, b, st, node):
        if a is b and a.op not in ('ref', 'top'):
            return TRUE
        if is_numeric(a) and is_numeric(b):
            return self.num_equal(a, b)
        oa, ob = st.obj(a), st.obj(b)
        if isinstance(oa, Inst):
            f = self.find_method(a, '__eq__', st)
            if f is not None:
                return self.truth(self.call(f, [b], {}, st, node), st, node)
        if isinstance(ob, Inst):
            f = self.find_method(b, '__eq__', st)
            if f is not None:
                return self.truth(self.call(f, [a], {}, st, node), st, node)
        if a is b:
            return TRUE
        if isinstance(oa, Inst) or isinstance(ob, Inst):
            ta = oa.tag if isinstance(oa, Inst) else a
            tb = ob.tag if isinstance(ob, Inst) else b
            if isinstance(oa, Inst) and isinstance(ob, Inst):
                return self.identical(a, b, st)
            if self.known_shape(a, st) and self.known_shape(b, st):
                return FALSE
            return mk('same', *sorted([ta or a, tb or b]), ty='bool')
        if isk(a) and isk(b):
            return K(kv(a) == kv(b))
        if a.op == 'tup' and b.op == 'tup':
            if len(a.args) != len(b.args):
                return FALSE
            return and_(*[self.equal(x, y, st, node) for x, y in zip(a.args, b.args)])
        if a.op == 'enumm' and b.op == 'enumm':
            if a.args[0] is b.args[0]:
                return self.equal(a.args[2], b.args[2], st, node)
            if self.int_enum(a.args[0]) and self.int_enum(b.args[0]):
                return self.equal(a.args[2], b.args[2], st, node)
            return FALSE
        if a.op in ('enum', 'enumm') and b.op in ('enum', 'enumm'):
            if a.args[0] is not b.args[0]:
                return FALSE
            va = a.args[1] if a.op == 'enum' else a.args[2]
            vb = b.args[1] if b.op == 'enum' else b.args[2]
            return self.equal(va, vb, st, node)
        for x, y in ((a, b), (b, a)):
            if x.op in ('enum', 'enumm') and self.known_shape(y, st):
                if self.int_enum(x.args[0]):
                    return self.equal(x.args[1] if x.op == 'enum' else x.args[2], y, st, node)
                return FALSE
        if isinstance(oa, Seq) and isinstance(ob, Seq):
            pa, pb = oa.pieces, ob.pieces
            if pa == pb:
                return TRUE
            if all(p[0] == 'i' for p in pa + pb) and oa.kind == ob.kind and oa.kind in ('list', 'tuple'):
                if len(pa) != len(pb):
                    return FALSE
                return and_(*[self.equal(x[1], y[1], st, node) for x, y in zip(pa, pb)])
        for x, y in ((a, b), (b, a)):
            ox = st.obj(x)
            if isinstance(ox, (Seq, Dic)) and (isk(y) or is_numeric(y)):
                return FALSE
            if x.op == 'tup' and (isk(y) or is_numeric(y)):
                return FALSE
            if x.op in ('cls', 'mod', 'fn', 'bm') and y.op in ('cls', 'mod', 'fn', 'bm', 'k', 'enumm'):
                return FALSE
            if x is NONE and (is_numeric(y) or y.ty in ('str', 'bytes') or y.op in ('enum', 'enumm', 'cls')):
                return FALSE
            if iskt(x, 'str', 'bytes') and is_numeric(y):
                return FALSE
            if iskt(x, 'str') and y.ty == 'bytes' or iskt(x, 'bytes') and y.ty == 'str':
                return FALSE
        fa, fb = self.freeze(a, st), self.freeze(b, st)
        if fa is fb:
            return TRUE
        if fb.sid < fa.sid:
            fa, fb = fb, fa
        return mk('eq', fa, fb, ty='bool')

    def known_shape(self, v, st):
        if v.op == 'ref':
            return True
        return isk(v) or is_numeric(v) or v.op in ('tup', 'enumm', 'enum', 'cls', 'fn', 'mod', 'bm') or v.ty in ('str', 'bytes')

    def identical(self, a, b, st):
        if a is b and a.op != 'top':
            return TRUE
        for x, y in ((a, b), (b, a)):
            if x.op == 'ite':
                return ite(x.args[0], self.identical(x.args[1], y, st), self.identical(x.args[2], y, st))
        if a.op == 'ref' and b.op == 'ref':
            oa, ob = st.obj(a), st.obj(b)
            if oa.tag is not None and ob.tag is not None:
                return mk('same', *sorted([oa.tag, ob.tag]), ty='bool')
            return FALSE
        for x, y in ((a, b), (b, a)):
            if x is NONE:
                if self.known_shape(y, st) or y.op in ('bmeth', 'ext', 'range'):
                    return FALSE
                if isinstance(y.ty, tuple) or y.ty in ('int', 'num', 'half', 'bool'):
                    return FALSE
                return mk('isnone', self.freeze(y, st), ty='bool')
        if isk(a) and isk(b):
            return K(a.args == b.args)
        if a.op == 'enumm' and b.op == 'enumm':
            return K(a.args[0] is b.args[0] and a.args[2] is b.args[2])
        if a.op in ('enum', 'enumm') and b.op in ('enum', 'enumm'):
            return self.equal(a, b, st, None)
        if a.op == 'cls' and b.op == 'cls':
            return FALSE
        if a.op == 'ext' and b.op == 'ext':
            return FALSE
        for x, y in ((a, b), (b, a)):
            if x.op in ('cls', 'mod', 'fn', 'ref') and self.known_shape(y, st):
                return FALSE
        if is_bool(a) and is_bool(b):
            return or_(and_(a, b), and_(not_(a), not_(b)))
        if is_numeric(a) and is_numeric(b):
            return self.num_equal(a, b)
        fa, fb = self.freeze(a, st), self.freeze(b, st)
        return mk('is', *sorted([fa, fb]), ty='bool')

    def contains(self, cont, x, st, node):
        if cont.op == 'ite' and not is_numeric(cont):
            return self.fork(cont.args[0], lambda y: self.contains(cont.args[1], x, y, node),
                             lambda y: self.contains(cont.args[2], x, y, node), st)
        o = st.obj(cont)
        if isinstance(o, Inst):
            f = self.find_method(cont, '__contains__', st)
            if f is not None:
                return self.truth(self.call(f, [x], {}, st, node), st, node)
        return self.B.contains(self, cont, x, st, node)
