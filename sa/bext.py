"""Abstract semantics of built-in functions and of the library calls the repository makes."""
import math
import os.path
from .terms import *
from .state import *
from .model import *
from .out import *
from . import builtins as B

TABLE = {}
SERIAL = ('random.', 'vox ')     # handlers whose answers come from a script, in the order of the calls


def ext(*names):
    def deco(f):
        for n in names:
            TABLE[n] = f
        return f
    return deco


def call_ext(I, name, args, kw, st, node):
    h = I.cfg.get('ext', {}).get(name)
    if h is not None:
        if I.loopctx and name.startswith(SERIAL):
            raise GiveUp('%s inside a loop that is not unrolled' % name)
        r = h(I, args, kw, st, node)
        if r is not None:
            return r
    for pre, h in I.cfg.get('extprefix', {}).items():
        if name.startswith(pre):
            r = h(I, name, args, kw, st, node)
            if r is not None:
                return r
    f = TABLE.get(name)
    if f is not None and not any(a.op == 'star' for a in args):
        r = f(I, args, kw, st, node)
        if r is not None:
            return r
    root = name.split('.')[0]
    if root in B.PASSIVE:
        return mk('passive')
    if name in EXC:
        return mk('excinst', name, tuple(I.freeze(a, st) for a in args))
    pure = root in PURE or name in PURE
    if not pure:
        # objects handed to unknown code keep their contents (trusted base); the call is an effect
        pass
    return I.opaque_call(mk('ext', name), args, kw, st, node, RETTY.get(name), effect=not pure)


EXC = set('''Exception ValueError KeyError IndexError TypeError RuntimeError NotImplementedError AttributeError StopIteration
AssertionError OSError IOError ZeroDivisionError ArithmeticError LookupError NameError SystemExit KeyboardInterrupt
BaseException FileNotFoundError EOFError OverflowError UnicodeDecodeError'''.split())
PURE = {'math', 'colorsys', 'struct', 'operator', 'itertools', 'functools', 'collections', 'os.path', 'noise', 'zlib',
        'hash', 'id', 'repr', 'format', 'divmod', 'issubclass', 'callable', 'binascii', 'textwrap', 'pkg_resources'}
RETTY = {'random.random': 'num', 'random.uniform': 'num', 'random.randint': 'int', 'random.randrange': 'int',
         'random.gauss': 'num', 'noise.pnoise2': 'num', 'noise.pnoise3': 'num', 'noise.snoise2': 'num',
         'time.time': 'num', 'hash': 'int', 'id': 'int', 'repr': 'str'}


# ---------------------------------------------------------------- numbers
@ext('len')
def _len(I, a, kw, st, node):
    v = a[0]
    if v.op == 'ite' and not is_numeric(v):
        return I.fork(v.args[0], lambda x: _len(I, [v.args[1]], kw, x, node), lambda x: _len(I, [v.args[2]], kw, x, node), st)
    o = st.obj(v)
    if isinstance(o, Inst):
        f = I.find_method(v, '__len__', st)
        if f is not None:
            return I.call(f, [], {}, st, node)
        if o.tag is None and not I.ext_based(o.cls):
            return I.fail(st, 'TypeError', 'object of type %s has no len()' % o.cls.name, node)
    n = B.len_of(I, v, st, node)
    if n is not None:
        return n
    if v.op == 'range':
        return B.range_count(*v.args)
    if v.op == 'cls' and v.args[0].is_enum:
        return K(len(I.enum_members(v.args[0], st)))
    if v is NONE or is_numeric(v):
        return I.fail(st, 'TypeError', 'object has no len()', node)
    return B.len_of_term(I.freeze(v, st))


@ext('abs', 'math.fabs')
def _abs(I, a, kw, st, node):
    v = a[0]
    if isnum(v):
        return K(abs(kv(v)))
    o = st.obj(v)
    if isinstance(o, Inst):
        f = I.find_method(v, '__abs__', st)
        if f is not None:
            return I.call(f, [], {}, st, node)
    return ite(lt(v, ZERO), neg(v), v)


@ext('int')
def _int(I, a, kw, st, node):
    if not a:
        return ZERO
    v = a[0]
    if isk(v):
        try:
            return K(int(kv(v), *[kv(x) for x in a[1:]]))
        except (ValueError, TypeError) as e:
            return I.fail(st, type(e).__name__, 'int(%s)' % show(v), node)
    if is_int(v):
        return ite(v, K(1), ZERO) if is_bool(v) else v
    if v.op == 'ite':
        return I.fork(v.args[0], lambda x: _int(I, [v.args[1]] + a[1:], kw, x, node), lambda x: _int(I, [v.args[2]] + a[1:], kw, x, node), st)
    if is_numeric(v):
        d = decide(le0(neg(v)), st.pc)
        if d:
            return floor(v)
        return mk('trunc', v, ty='int')
    o = st.obj(v)
    if isinstance(o, Inst):
        for m in ('__int__', '__index__'):
            f = I.find_method(v, m, st)
            if f is not None:
                return I.call(f, [], {}, st, node)
    if v.op == 'enumm' and I.int_enum(v.args[0]):
        return v.args[2]
    return mk('int', I.freeze(v, st), *a[1:], ty='int')


@ext('float')
def _float(I, a, kw, st, node):
    if not a:
        return K(0.0)
    v = a[0]
    if isk(v):
        try:
            return K(float(kv(v)))
        except (ValueError, TypeError) as e:
            return I.fail(st, type(e).__name__, 'float(%s)' % show(v), node)
    if is_numeric(v):
        return v
    return mk('float', I.freeze(v, st), ty='num')


@ext('bool')
def _bool(I, a, kw, st, node):
    return I.truth(a[0], st, node) if a else FALSE


@ext('round')
def _round(I, a, kw, st, node):
    if len(a) > 1 and a[1] is not NONE:
        if isnum(a[0]) and isnum(a[1]):
            return K(round(kv(a[0]), kv(a[1])))
        if is_int(a[0]):
            return a[0]
        return mk('roundn', a[0], a[1], ty='num')
    v = a[0]
    if v.op == 'ite':
        return ite(v.args[0], _round(I, [v.args[1]], kw, st, node), _round(I, [v.args[2]], kw, st, node))
    return round_(v)


@ext('math.floor')
def _floor(I, a, kw, st, node):
    return _ndist(a[0], floor)


@ext('math.ceil')
def _ceil(I, a, kw, st, node):
    return _ndist(a[0], lambda x: neg(floor(neg(x))))


def _ndist(v, f):
    if v.op == 'ite':
        return ite(v.args[0], _ndist(v.args[1], f), _ndist(v.args[2], f))
    return f(v)


def _snap(x):
    if abs(x - round(x)) < 1e-9:
        return float(round(x))
    return x


def _mathfn(name):
    fn = getattr(math, name)

    def f(I, a, kw, st, node):
        if all(isnum(x) for x in a):
            try:
                return K(_snap(fn(*[kv(x) for x in a])))
            except (ValueError, OverflowError, ZeroDivisionError, TypeError):
                return I.fail(st, 'ValueError', 'math domain error', node)
        if len(a) == 1 and a[0].op == 'ite':
            return ite(a[0].args[0], f(I, [a[0].args[1]], kw, st, node), f(I, [a[0].args[2]], kw, st, node))
        return mk('fn', 'math.' + name, tuple(I.freeze(x, st) for x in a), ty='num') if False else \
            mk('math', name, *[I.freeze(x, st) for x in a], ty='num')
    return f


for _n in ('cos', 'sin', 'tan', 'atan2', 'atan', 'acos', 'asin', 'sqrt', 'exp', 'log', 'log2', 'radians', 'degrees', 'hypot', 'log10'):
    TABLE['math.' + _n] = _mathfn(_n)


@ext('pow', 'math.pow')
def _pow(I, a, kw, st, node):
    return I.arith('Pow', a[0], a[1])


@ext('divmod')
def _divmod(I, a, kw, st, node):
    return mk('tup', floordiv(a[0], a[1]), I.arith('Mod', a[0], a[1]))


def _minmax(which):
    def f(I, a, kw, st, node):
        if 'key' in kw:
            fl = B.flat(I, a[0], st, node) if len(a) == 1 else list(a)
            if not fl:
                return None
            best, bk = fl[0], I.call(kw['key'], [fl[0]], {}, st, node)
            for x in fl[1:]:
                k = I.call(kw['key'], [x], {}, st, node)
                c = I.compare('Lt' if which == 'min' else 'Gt', k, bk, st, node)
                best, bk = merge_val(c, x, best), merge_val(c, k, bk)
            return best
        if len(a) == 1:
            ps = B.iter_pieces(I, a[0], st, node)
            if not all(p[0] == 'i' for p in ps):
                if len(ps) == 1 and ps[0][0] == 'rep' and len(ps[0][2]) == 1 and ps[0][2][0][0] == 'i':
                    v = ps[0][2][0][1]
                    return mk(which + 'over', ps[0][1], I.freeze(v, st), ty=v.ty)
                fr = I.freeze(a[0], st)
                return mk(which + 'of', fr, *(I.freeze(kw['default'], st),) if 'default' in kw else (), ty=B.elem_ty(fr) or 'num')
            vals = [p[1] for p in ps]
            if not vals:
                if 'default' in kw:
                    return kw['default']
                return I.fail(st, 'ValueError', '%s() of empty sequence' % which, node)
        else:
            vals = list(a)
        if all(isnum(v) for v in vals):
            return K((min if which == 'min' else max)(kv(v) for v in vals))
        if all(is_numeric(v) for v in vals):
            # normal form: sorted distinct operands
            flatv = []
            for v in vals:
                flatv.extend(v.args if v.op == which else [v])
            ks = [v for v in flatv if isnum(v)]
            rest = sorted(set(v for v in flatv if not isnum(v)))
            if ks:
                rest.append(K((min if which == 'min' else max)(kv(v) for v in ks)))
            if len(rest) == 2:
                d = le(rest[0], rest[1])
                x = decide(d, st.pc)
                if x is not None:
                    return rest[0] if x == (which == 'min') else rest[1]
                return ite(d, rest[0], rest[1]) if which == 'min' else ite(d, rest[1], rest[0])
            r = rest[0]
            for v in rest[1:]:
                d = le(r, v)
                r = ite(d, r, v) if which == 'min' else ite(d, v, r)
            return r
        r = vals[0]
        for v in vals[1:]:
            c = I.compare('Lt' if which == 'min' else 'Gt', v, r, st, node)
            r = merge_val(c, v, r)
        return r
    return f


TABLE['min'] = _minmax('min')
TABLE['max'] = _minmax('max')


@ext('sum')
def _sum(I, a, kw, st, node):
    start = a[1] if len(a) > 1 else kw.get('start', ZERO)
    ps = B.iter_pieces(I, a[0], st, node)
    return _sumps(I, ps, start, st, node)


def _sumps(I, ps, acc, st, node):
    for p in ps:
        if p[0] == 'i':
            acc = I.binop('Add', acc, p[1], st, node)
        elif p[0] == 'if':
            A = _sumps(I, p[2], acc, st, node)
            B_ = _sumps(I, p[3], acc, st, node)
            acc = merge_val(p[1], A, B_)
        elif p[0] == 'rep':
            inner = _sumps(I, p[2], ZERO, st, node)
            if is_numeric(inner):
                acc = add(acc, sumover(p[1], inner))
            else:
                return mk('sumof', I.freeze(acc, st), I.freeze_pieces(ps, st, ()), ty='num')
        else:
            acc = I.binop('Add', acc, mk('sumof', p[1], ty=B.elem_ty(p[1]) or 'num'), st, node)
    return acc


def sumover(lp, inner):
    if isnum(inner) and kv(inner) == 0:
        return ZERO
    if lp.kind == 'for' and lp.count is not None and not lp.exits and isnum(inner):
        return mul(lp.count, inner)
    return mk('sumover', lp, inner, ty='int' if is_int(inner) else 'num')


def _anyall(isany):
    def go(I, ps, st, node):
        cs = []
        for p in ps:
            if p[0] == 'i':
                c = I.truth(p[1], st, node)
                cs.append(c if isany else not_(c))
            elif p[0] == 'if':
                x, y = go(I, p[2], st, node), go(I, p[3], st, node)
                cs.append(or_(and_(p[1], x), and_(not_(p[1]), y)))
            elif p[0] == 'rep':
                x = go(I, p[2], st, node)
                cs.append(x if x is FALSE else mk('exists', p[1], x, ty='bool'))
            else:
                cs.append(mk('anyof' if isany else 'anynot', p[1], ty='bool'))
        return or_(*cs)

    def f(I, a, kw, st, node):
        c = go(I, B.iter_pieces(I, a[0], st, node), st, node)
        return c if isany else not_(c)
    return f


TABLE['any'] = _anyall(True)
TABLE['all'] = _anyall(False)


# ---------------------------------------------------------------- sequences
@ext('range')
def _range(I, a, kw, st, node):
    a = [x if not (iskt(x, 'float')) else I.fail(st, 'TypeError', 'float in range', node) for x in a]
    if st.dead:
        return top('dead')
    for x in a:
        if x is NONE or x.op in ('ref', 'tup') or iskt(x, 'str'):
            return I.fail(st, 'TypeError', 'range of non-integer', node)
    if len(a) == 1:
        return mk('range', ZERO, a[0], K(1))
    if len(a) == 2:
        return mk('range', a[0], a[1], K(1))
    return mk('range', a[0], a[1], a[2])


@ext('enumerate')
def _enumerate(I, a, kw, st, node):
    start = a[1] if len(a) > 1 else kw.get('start', ZERO)
    ps = B.iter_pieces(I, a[0], st, node)
    out, pos = numbered(I, ps, start)
    if out is None:
        out = (('sp', mk('enumerate', mk('seq', 'list', I.freeze_pieces(ps, st, ())), start)),)
    return st.alloc(Seq('gen', tuple(out)))


def numbered(I, ps, pos):
    """(pieces of (position, element), position after them); a position that no formula describes is a value of its own"""
    out = []
    for p in ps:
        if p[0] == 'i':
            out.append(('i', mk('tup', pos, p[1])))
            pos = add(pos, K(1))
            continue
        if p[0] == 'sp':
            n = B.len_of_term(p[1])
            lp = I.new_loop('for', n)
            out.append(('rep', lp, (('i', mk('tup', add(pos, lp.idx()), B.item_of_term(I, p[1], lp.idx()))),)))
            pos = add(pos, n)
            continue
        if p[0] == 'if':
            x, px = numbered(I, p[2], pos)
            y, py = numbered(I, p[3], pos)
            if x is None or y is None:
                return None, None
            out.append(('if', p[1], tuple(x), tuple(y)))
            pos = ite(p[1], px, py)
            continue
        if p[0] != 'rep':
            return None, None
        lp = p[1]
        n = B.pieces_len(p[2])
        if n is not None and not I._mentions(n, lp):
            at = add(pos, mul(lp.idx(), n))
        else:
            at = mk('lv', lp.lid, 'the position', ty='int')
        x, _ = numbered(I, p[2], at)
        if x is None:
            return None, None
        out.append(('rep', lp, tuple(x)))
        n = B.pieces_len((p,))
        pos = add(pos, n) if n is not None and not lp.exits else mk('lout', lp.lid, 'the position', ty='int')
    return out, pos


@ext('zip')
def _zip(I, a, kw, st, node):
    fl = [B.flat(I, x, st, node) for x in a]
    if all(f is not None for f in fl):
        return st.alloc(Seq('gen', tuple(('i', mk('tup', *xs)) for xs in zip(*fl))))
    pss = [B.iter_pieces(I, x, st, node) for x in a]
    if all(len(p) == 1 and p[0][0] in ('sp', 'rep') for p in pss):
        lens = [B.pieces_len(p) for p in pss]
        if all(l is not None and l is lens[0] for l in lens):
            lp = I.new_loop('for', lens[0])
            items = []
            for p in pss:
                if p[0][0] == 'sp':
                    items.append(B.item_of_term(I, p[0][1], lp.idx()))
                else:
                    items.append(B.rep_item(I, p[0], lp.idx()))
            if all(x is not None for x in items):
                return st.alloc(Seq('gen', (('rep', lp, (('i', mk('tup', *items)),)),)))
    flats = [f for f in fl if f is not None]
    return st.alloc(Seq('gen', (('sp', mk('zip', *[I.freeze(x, st) for x in a])),)))


@ext('reversed')
def _reversed(I, a, kw, st, node):
    return st.alloc(Seq('gen', rev(I, B.iter_pieces(I, a[0], st, node), st)))


def rev(I, ps, st):
    out = []
    for p in reversed(ps):
        if p[0] == 'i':
            out.append(p)
        elif p[0] == 'if':
            out.append(('if', p[1], rev(I, p[2], st), rev(I, p[3], st)))
        elif p[0] == 'sp':
            n = B.len_of_term(p[1])
            lp = I.new_loop('for', n)
            out.append(('rep', lp, (('i', B.item_of_term(I, p[1], sub(sub(n, K(1)), lp.idx()))),)))
        else:
            lp0 = p[1]
            if lp0.kind == 'for' and not lp0.exits:
                lp = I.new_loop('for', lp0.count)
                i0, i1 = lp0.idx(), sub(sub(lp0.count, K(1)), lp.idx())
                inner = I.rename_pieces(rev(I, p[2], st), lambda t: subst(t, lambda x: i1 if x is i0 else None))
                out.append(('rep', lp, inner))
            else:
                out.append(('sp', mk('reversed', mk('seq', 'list', I.freeze_pieces((p,), st, ())))))
    return tuple(out)


@ext('sorted')
def _sorted(I, a, kw, st, node):
    return st.alloc(Seq('list', sort_pieces(I, a[0], kw, st, node), None, I.loc(node)))


def sort_pieces(I, v, kw, st, node):
    fl = B.flat(I, v, st, node)
    if fl is not None and len(fl) <= 1:
        return tuple(('i', x) for x in fl)
    if fl is not None:
        keys = fl
        if 'key' in kw and kw['key'] is not NONE:
            keys = [I.call(kw['key'], [x], {}, st, node) for x in fl]
        ck = [const_value(k) for k in keys]
        if any(c is None for c in ck) and all(k.op == 'tup' and k.args and isk(k.args[0]) for k in keys):
            first = [kv(k.args[0]) for k in keys]
            if all(type(x) in (str, bytes) for x in first) and len(set(first)) == len(first):
                ck = [(x,) for x in first]
        if all(c is not None for c in ck):
            try:
                order = sorted(range(len(fl)), key=lambda i: ck[i][0], reverse=bool(isk(kw.get('reverse', FALSE)) and kv(kw.get('reverse', FALSE))))
                return tuple(('i', fl[i]) for i in order)
            except TypeError:
                pass
    return (('sp', mk('sorted', I.freeze(v, st), *[I.freeze(kw[k], st) for k in sorted(kw)])),)


def const_value(k):
    if isk(k):
        return (kv(k),)
    if k.op == 'tup':
        r = [const_value(x) for x in k.args]
        return (tuple(x[0] for x in r),) if all(x is not None for x in r) else None
    return None


@ext('list')
def _list(I, a, kw, st, node):
    ps = tuple(B.iter_pieces(I, a[0], st, node)) if a else ()
    return st.alloc(Seq('list', ps, None, I.loc(node)))


@ext('iter')
def _iter(I, a, kw, st, node):
    return st.alloc(Seq('gen', tuple(B.iter_pieces(I, a[0], st, node)), None, I.loc(node)))


@ext('next')
def _next(I, a, kw, st, node):
    o = st.obj(a[0])
    if isinstance(o, Seq) and o.pieces and o.pieces[0][0] == 'i':
        st.set(a[0].args[0], o.with_(o.pieces[1:]))
        return o.pieces[0][1]
    if isinstance(o, Seq) and not o.pieces and len(a) > 1:
        return a[1]
    return I.opaque_call(mk('ext', 'next'), a, kw, st, node)


@ext('tuple')
def _tuple(I, a, kw, st, node):
    if not a:
        return mk('tup')
    ps = B.iter_pieces(I, a[0], st, node)
    if all(p[0] == 'i' for p in ps):
        return mk('tup', *[p[1] for p in ps])
    return st.alloc(Seq('tuple', tuple(ps), None, I.loc(node)))


@ext('set', 'frozenset')
def _set(I, a, kw, st, node):
    r = st.alloc(Seq('set', (), None, I.loc(node)))
    if a:
        B.seq_extend(I, r, a[0], st, node)
    return r


@ext('dict', 'collections.OrderedDict', 'OrderedDict')
def _dict(I, a, kw, st, node):
    r = st.alloc(Dic((), None, I.loc(node)))
    if a:
        o = st.obj(a[0])
        if isinstance(o, Dic):
            B.dict_update(I, r, a[0], st, node)
        else:
            ps = B.iter_pieces(I, a[0], st, node)

            def body(v, x):
                kvp = B.unpack(I, v, 2, x, node)
                if kvp is not None and len(kvp) == 2:
                    B.setitem(I, r, kvp[0], kvp[1], x, node)
                return Leaf('fall', None, x)
            s2 = I.single(I.run_pieces(ps, st, body, node, None))
            if s2 is not st:
                st.become(s2)
    for k, v in kw.items():
        if k != '**':
            B.setitem(I, r, K(k), v, st, node)
    return r


@ext('collections.defaultdict')
def _defaultdict(I, a, kw, st, node):
    return st.alloc(Dic((), None, I.loc(node), a[0] if a and a[0] is not NONE else None))


@ext('collections.deque')
def _deque(I, a, kw, st, node):
    return _list(I, a[:1], {}, st, node)


@ext('map')
def _map(I, a, kw, st, node):
    r = st.alloc(Seq('gen', (), None, I.loc(node)))
    if len(a) == 2:
        def body(v, x):
            w = I.call(a[0], [v], {}, x, node)
            o = x.obj(r)
            x.set(r.args[0], o.with_(o.pieces + (('i', w),)))
            return Leaf('fall', None, x)
        src = a[1]
    else:
        src = _zip(I, a[1:], {}, st, node)

        def body(v, x):
            w = I.call(a[0], B.unpack(I, v, len(a) - 1, x, node), {}, x, node)
            o = x.obj(r)
            x.set(r.args[0], o.with_(o.pieces + (('i', w),)))
            return Leaf('fall', None, x)
    s2 = I.single(I.run_pieces(B.iter_pieces(I, src, st, node), st, body, node, None))
    if s2 is not st:
        st.become(s2)
    return r


@ext('filter')
def _filter(I, a, kw, st, node):
    r = st.alloc(Seq('gen', (), None, I.loc(node)))

    def body(v, x):
        c = I.truth(v if a[0] is NONE else I.call(a[0], [v], {}, x, node), x, node)

        def add_(y):
            o = y.obj(r)
            y.set(r.args[0], o.with_(o.pieces + (('i', v),)))
            return NONE
        I.fork(c, add_, lambda y: NONE, x)
        return Leaf('fall', None, x)
    s2 = I.single(I.run_pieces(B.iter_pieces(I, a[1], st, node), st, body, node, None))
    if s2 is not st:
        st.become(s2)
    return r


@ext('itertools.chain')
def _chain(I, a, kw, st, node):
    ps = []
    for x in a:
        ps.extend(B.iter_pieces(I, x, st, node))
    return st.alloc(Seq('gen', tuple(ps)))


@ext('itertools.chain.from_iterable')
def _chainfi(I, a, kw, st, node):
    fl = B.flat(I, a[0], st, node)
    return _chain(I, fl, {}, st, node) if fl is not None else None


@ext('itertools.product')
def _product(I, a, kw, st, node):
    rep = kw.get('repeat')
    srcs = list(a) * (kv(rep) if rep is not None and isk(rep) else 1)
    fl = [B.flat(I, x, st, node) for x in srcs]
    if all(f is not None for f in fl):
        import itertools
        n = 1
        for f in fl:
            n *= len(f)
        if n <= 5000:
            return st.alloc(Seq('gen', tuple(('i', mk('tup', *xs)) for xs in itertools.product(*fl))))
    # nested loops
    r = st.alloc(Seq('gen', ()))

    def level(i, pre, x):
        if i == len(srcs):
            o = x.obj(r)
            x.set(r.args[0], o.with_(o.pieces + (('i', mk('tup', *pre)),)))
            return Leaf('fall', None, x)
        return I.run_pieces(B.iter_pieces(I, srcs[i], x, node), x, lambda v, y: level(i + 1, pre + [v], y), node, None)
    s2 = I.single(level(0, [], st))
    if s2 is not st:
        st.become(s2)
    return r


@ext('slice')
def _slice(I, a, kw, st, node):
    if len(a) == 1:
        return mk('slice', NONE, a[0], NONE)
    return mk('slice', *(list(a) + [NONE])[:3])


@ext('tqdm.tqdm', 'tqdm', 'tqdm.auto.tqdm', 'tqdm.trange')
def _tqdm(I, a, kw, st, node):
    return a[0] if a else kw.get('iterable', mk('passive'))


# ---------------------------------------------------------------- types
def type_of(I, v, st):
    o = st.obj(v)
    if isinstance(o, Inst):
        return mk('cls', o.cls)
    if isinstance(o, Seq):
        return mk('ext', {'gen': 'generator'}.get(o.kind, o.kind))
    if isinstance(o, Dic):
        return mk('ext', 'dict')
    if v.op in ('enumm', 'enum'):
        return mk('cls', v.args[0])
    if isk(v):
        return mk('ext', type(kv(v)).__name__)
    if v.op == 'tup':
        return mk('ext', 'tuple')
    if is_bool(v):
        return mk('ext', 'bool')
    if is_int(v):
        return mk('ext', 'int')
    if v.ty == 'float':
        return mk('ext', 'float')
    if v.ty in ('str', 'bytes'):
        return mk('ext', v.ty)
    if v.op == 'cls':
        return mk('ext', 'enum.EnumMeta' if v.args[0].is_enum else 'type')
    if v.op in ('fn', 'bm'):
        return mk('ext', 'function' if v.op == 'fn' else 'method')
    if v.op == 'mod':
        return mk('ext', 'module')
    if v.op == 'moddunder':
        return mk('ext', {'__builtins__': 'dict', '__loader__': '_frozen_importlib_external.SourceFileLoader', '__spec__': '_frozen_importlib.ModuleSpec', '__path__': 'list'}[v.args[1]])
    if v.op == 'ext':
        import builtins
        return mk('ext', 'type' if isinstance(getattr(builtins, v.args[0], None), type) else 'builtin_function_or_method') if '.' not in v.args[0] and hasattr(builtins, v.args[0]) else mk('typeof', v)
    return mk('typeof', v)


@ext('type')
def _type(I, a, kw, st, node):
    v = a[0]
    if mixed(v):
        return ite(v.args[0], _type(I, [v.args[1]], kw, st, node), _type(I, [v.args[2]], kw, st, node))
    if not isk(v) and (v.ty == 'num' or v.ty == 'half'):
        return mk('typeof', v)
    return type_of(I, v, st)


TYPES = ('int', 'float', 'str', 'bytes', 'bool', 'list', 'tuple', 'dict', 'set', 'frozenset', 'NoneType', 'OrderedDict')


def isinst(I, v, t, st):
    """term: isinstance(v, t)"""
    if mixed(v):
        return ite(v.args[0], isinst(I, v.args[1], t, st), isinst(I, v.args[2], t, st))
    if t.op == 'tup':
        return or_(*[isinst(I, v, x, st) for x in t.args])
    o = st.obj(v)
    cls = o.cls if isinstance(o, Inst) else (v.args[0] if v.op in ('enumm', 'enum') else None)
    if t.op == 'cls':
        ci = t.args[0]
        if cls is not None:
            if ci in cls.mro:
                return TRUE
            if isinstance(o, Inst) and o.tag is not None and cls in ci.mro:
                return mk('isinst', o.tag, ci.qual, ty='bool')
            return FALSE
        if isk(v) or is_numeric(v) or v.op in ('tup', 'cls', 'fn', 'mod', 'bm', 'ref') or v.ty in ('str', 'bytes'):
            return FALSE
        return mk('isinst', v, ci.qual, ty='bool')
    if t.op == 'ext':
        n = t.args[0].split('.')[-1]
        if n == 'object':
            return TRUE
        if v.op == 'cls' and n in ('type', 'EnumMeta', 'EnumType'):
            return K(n == 'type' or v.args[0].is_enum)
        if v.op == 'moddunder' and n == 'type' and v.args[1] != '__path__':
            return FALSE
        if v.op in ('mod', 'fn', 'enumm') or v.op == 'cls' and n in TYPES:
            return K({'mod': 'ModuleType', 'fn': 'FunctionType'}.get(v.op) == n) if n in TYPES or n in ('type', 'ModuleType', 'FunctionType') else mk('isinst', v, n, ty='bool')
        if isk(v):
            py = {'int': int, 'float': float, 'str': str, 'bytes': bytes, 'bool': bool, 'NoneType': type(None)}.get(n)
            return K(py is not None and isinstance(kv(v), py))
        if is_bool(v):
            return K(n in ('bool', 'int'))
        if is_int(v):
            if n == 'bool':
                return FALSE
            return K(n in ('int', 'Integral', 'Number', 'Real'))
        if v.ty == 'float':
            return K(n == 'float')
        if v.ty in ('num', 'half') and is_numeric(v):
            if n in ('int', 'float'):
                return mk('isinst', v, n, ty='bool')
            return K(n in ('Number', 'Real'))
        if v.ty in ('str', 'bytes'):
            return K(n == v.ty)
        if isinstance(o, Seq):
            return K(n == o.kind or n in ('Iterable', 'Sequence') or (n == 'frozenset' and False))
        if isinstance(o, Dic):
            return K(n in ('dict', 'OrderedDict', 'Mapping', 'Iterable'))
        if v.op == 'tup':
            return K(n in ('tuple', 'Iterable', 'Sequence'))
        if cls is not None:
            if v.op in ('enumm', 'enum') and n == 'int':
                return K(I.int_enum(cls))
            if n in ('Enum', 'IntEnum'):
                return K(cls.is_enum)
            return K(any(b.split('.')[-1] == n for c in cls.mro for b in c.ext_bases))
        if v.op in ('cls',):
            return K(n == 'type')
        if v.op in ('fn', 'bm', 'mod'):
            return FALSE
        return mk('isinst', v, n, ty='bool')
    return mk('isinst', I.freeze(v, st), t, ty='bool')


@ext('isinstance')
def _isinstance(I, a, kw, st, node):
    return isinst(I, a[0], a[1], st)


@ext('issubclass')
def _issubclass(I, a, kw, st, node):
    if a[0].op == 'cls':
        ts = a[1].args if a[1].op == 'tup' else [a[1]]
        if all(t.op == 'cls' for t in ts):
            return K(any(t.args[0] in a[0].args[0].mro for t in ts))
    return None


@ext('callable')
def _callable(I, a, kw, st, node):
    return K(True) if a[0].op in ('fn', 'bm', 'cls', 'bmeth', 'ext') else (FALSE if isk(a[0]) or is_numeric(a[0]) else None)


def presence(v):
    if v is None or v is ABSENT:
        return FALSE
    if v.op == 'ite':
        return ite(v.args[0], presence(v.args[1]), presence(v.args[2]))
    return TRUE


@ext('hasattr')
def _hasattr(I, a, kw, st, node):
    v, n = a
    if v.op == 'ite' and not is_numeric(v):
        return ite(v.args[0], _hasattr(I, [v.args[1], n], kw, st, node), _hasattr(I, [v.args[2], n], kw, st, node))
    if not isk(n):
        if n.op == 'ite':
            return ite(n.args[0], _hasattr(I, [v, n.args[1]], kw, st, node), _hasattr(I, [v, n.args[2]], kw, st, node))
        return mk('hasattr', I.freeze(v, st), n, ty='bool')
    name = kv(n)
    o = st.obj(v)
    if isinstance(o, Inst) and o.cls is not None:
        if name in ('__class__', '__dict__'):
            return TRUE
        cv, _ = I.class_attr(o.cls, name, st)
        if cv is not None:
            return TRUE
        if name in o.fields:
            return presence(o.fields[name])
        if o.tag is not None:
            if any((c.name, name) in I.ftypes for c in o.cls.mro):
                return TRUE
            return mk('hasattr', o.tag, name, ty='bool')
        if I.ext_based(o.cls):
            return mk('hasattr', I.freeze(v, st), name, ty='bool')
        return FALSE
    r = I.getattr_(v, name, st, node, quiet=True)
    if r is None:
        return FALSE
    if r.op == 'bmeth':
        o = st.obj(v)
        py = {'list': list, 'set': set, 'tuple': tuple}.get(o.kind) if isinstance(o, Seq) else (dict if isinstance(o, Dic) else
             (type(kv(v)) if isk(v) else (tuple if v.op == 'tup' else None)))
        return K(hasattr(py, name)) if py is not None else mk('hasattr', I.freeze(v, st), name, ty='bool')
    if v.op in ('mod', 'cls', 'enumm', 'enum'):
        return TRUE
    return mk('hasattr', I.freeze(v, st), name, ty='bool')


@ext('getattr')
def _getattr(I, a, kw, st, node):
    v, n = a[0], a[1]
    if n.op == 'ite':
        return I.fork(n.args[0], lambda x: _getattr(I, [v, n.args[1]] + list(a[2:]), kw, x, node),
                      lambda x: _getattr(I, [v, n.args[2]] + list(a[2:]), kw, x, node), st)
    if v.op == 'ite' and not is_numeric(v):
        return I.fork(v.args[0], lambda x: _getattr(I, [v.args[1]] + list(a[1:]), kw, x, node),
                      lambda x: _getattr(I, [v.args[2]] + list(a[1:]), kw, x, node), st)
    if not iskt(n, 'str'):
        if n.op == 'item' and n.args[0].op == 'tup' and all(iskt(x, 'str') for x in n.args[0].args):
            pass
        return mk('dynattr', I.freeze(v, st), I.freeze(n, st))
    if len(a) > 2:
        h = _hasattr(I, [v, n], {}, st, node)
        return I.fork(h, lambda x: I.getattr_(v, kv(n), x, node), lambda x: a[2], st)
    return I.getattr_(v, kv(n), st, node)


@ext('setattr')
def _setattr(I, a, kw, st, node):
    if iskt(a[1], 'str'):
        I.setattr_(a[0], kv(a[1]), a[2], st, node)
    else:
        o = st.obj(a[0])
        st.emit('setattr', (I.freeze(a[0], st), I.freeze(a[1], st), I.freeze(a[2], st)), I.loc(node))
    return NONE


@ext('vars')
def _vars(I, a, kw, st, node):
    return I.getattr_(a[0], '__dict__', st, node)


@ext('dir')
def _dir(I, a, kw, st, node):
    v = a[0]
    if v.op == 'mod':
        o = st.get(I.p.modules[v.args[0]].oid)
        names = set(o.fields) | {'__builtins__', '__cached__', '__doc__', '__loader__', '__package__', '__spec__', '__name__', '__file__'}
        if I.p.modules[v.args[0]].path.endswith('__init__.py'):
            names.add('__path__')
        return st.alloc(Seq('list', tuple(('i', K(k)) for k in sorted(names))))
    return None


# ---------------------------------------------------------------- strings
@ext('str')
def _str(I, a, kw, st, node):
    if not a:
        return K('')
    if len(a) > 1:
        return mk('decode', I.freeze(a[0], st), *a[1:], ty='str')
    return B.to_str(I, a[0], st, '', node)


@ext('repr')
def _repr(I, a, kw, st, node):
    o = st.obj(a[0])
    if isinstance(o, Inst):
        f = I.find_method(a[0], '__repr__', st)
        if f is not None:
            return I.call(f, [], {}, st, node)
    if isk(a[0]):
        return K(repr(kv(a[0])))
    if 'text' in I.cfg:
        r = I.cfg['text'](I, a[0], st, node)
        if r is not None:
            return r
    return mk('repr', I.freeze(a[0], st), ty='str')


@ext('chr')
def _chr(I, a, kw, st, node):
    v = a[0]
    if iskt(v, 'int'):
        return K(chr(kv(v)))
    if v.op == 'ord' and v.args[0].ty == 'str':
        return v.args[0]
    if v.op == 'ite':
        return ite(v.args[0], _chr(I, [v.args[1]], kw, st, node), _chr(I, [v.args[2]], kw, st, node))
    if v.ty in ('num', 'half') and not is_int(v):
        return mk('chr', v, ty='str')
    return mk('chr', v, ty='str')


@ext('ord')
def _ord(I, a, kw, st, node):
    v = a[0]
    if isk(v):
        try:
            return K(ord(kv(v)))
        except TypeError:
            return I.fail(st, 'TypeError', 'ord(%s)' % show(v), node)
    if v.op in ('chr', 'byte'):
        return v.args[0]
    return mk('ord', I.freeze(v, st), ty='int')


@ext('bytes', 'bytearray')
def _bytes(I, a, kw, st, node):
    if not a:
        return K(b'')
    if isk(a[0]) and isinstance(kv(a[0]), (int, bytes)):
        return K(bytes(kv(a[0])))
    fl = B.flat(I, a[0], st, node) if a[0].op in ('ref', 'tup') else None
    if fl is not None and len(a) == 1:
        if all(iskt(x, 'int') and 0 <= kv(x) < 256 for x in fl):
            return K(bytes(kv(x) for x in fl))
        return B.concat([K(bytes([kv(x)])) if iskt(x, 'int') and 0 <= kv(x) < 256 else mk('byte', x, ty='bytes') for x in fl])
    return mk('bytes', *[I.freeze(x, st) for x in a], ty='bytes')


@ext('print', 'input', 'sys.stdout.write', 'sys.stderr.write', 'sys.stdout.flush', 'sys.stderr.flush')
def _print(I, a, kw, st, node):
    return NONE


# ---------------------------------------------------------------- struct
@ext('struct.pack')
def _pack(I, a, kw, st, node):
    return mk('pack', *[I.freeze(x, st) for x in a], ty='bytes')


@ext('struct.calcsize')
def _calcsize(I, a, kw, st, node):
    import struct
    if iskt(a[0], 'str'):
        try:
            return K(struct.calcsize(kv(a[0])))
        except struct.error:
            return I.fail(st, 'struct.error', 'bad format', node)
    return None


@ext('struct.unpack')
def _unpack(I, a, kw, st, node):
    import struct
    if iskt(a[0], 'str'):
        try:
            n = len(struct.unpack(kv(a[0]), b'\0' * struct.calcsize(kv(a[0]))))
        except struct.error:
            return I.fail(st, 'struct.error', 'bad format', node)
        fr = I.freeze(a[1], st)
        if isk(fr):
            try:
                return mk('tup', *[K(x) for x in struct.unpack(kv(a[0]), kv(fr))])
            except struct.error:
                return I.fail(st, 'struct.error', 'size mismatch', node)
        isf = any(c in kv(a[0]) for c in 'fd')
        iss = any(c in kv(a[0]) for c in 'sp')
        return mk('tup', *[mk('unpack', a[0], K(i), fr, ty='num' if isf else ('bytes' if iss or 'c' in kv(a[0]) else 'int')) for i in range(n)])
    return None


# ---------------------------------------------------------------- misc
@ext('copy.deepcopy')
def _deepcopy(I, a, kw, st, node):
    return deepcopy(I, a[0], st, {}, node)


def deepcopy(I, v, st, memo, node):
    if v.op == 'ref':
        k = v.args[0]
        if k in memo:
            return memo[k]
        o = st.obj(v)
        if isinstance(o, Inst):
            if o.cls is None:
                return v
            f = I.find_method(v, '__deepcopy__', st)
            if f is not None:
                return I.call(f, [st.alloc(Dic(()))], {}, st, node)
            r = st.alloc(Inst(o.cls, {}, mk('copyof', o.tag) if o.tag is not None else None, o.where))
            memo[k] = r
            flds = {}
            for n, x in o.fields.items():
                flds[n] = deepcopy(I, x, st, memo, node) if x is not ABSENT else x
            st.set(r.args[0], Inst(o.cls, flds, mk('copyof', o.tag) if o.tag is not None else None, o.where))
            return r
        if isinstance(o, Seq):
            r = st.alloc(Seq(o.kind, (), None, o.where))
            memo[k] = r
            st.set(r.args[0], Seq(o.kind, dc_pieces(I, o.pieces, st, memo, node), None, o.where))
            return r
        if isinstance(o, Dic):
            r = st.alloc(Dic((), None, o.where, o.default))
            memo[k] = r
            st.set(r.args[0], Dic(dc_pieces(I, o.pieces, st, memo, node), None, o.where, o.default))
            return r
    if I.has_ref(v):
        if v.op in ('tup', 'ite'):
            return rebuild(v, lambda x: deepcopy(I, x, st, memo, node) if isinstance(x, T) else x)
    return v


def dc_pieces(I, ps, st, memo, node):
    out = []
    for p in ps:
        if p[0] == 'i':
            out.append(('i', tuple(deepcopy(I, x, st, memo, node) for x in p[1]) if isinstance(p[1], tuple) else deepcopy(I, p[1], st, memo, node)))
        elif p[0] == 'if':
            out.append(('if', p[1], dc_pieces(I, p[2], st, memo, node), dc_pieces(I, p[3], st, memo, node)))
        elif p[0] == 'rep':
            out.append(('rep', p[1], dc_pieces(I, p[2], st, memo, node)))
        else:
            out.append(p)
    return tuple(out)


@ext('copy.copy')
def _copy(I, a, kw, st, node):
    v = a[0]
    o = st.obj(v)
    if isinstance(o, Inst):
        return st.alloc(Inst(o.cls, dict(o.fields), mk('copyof', o.tag) if o.tag is not None else None, o.where))
    if isinstance(o, Seq):
        return st.alloc(Seq(o.kind, o.pieces, None, o.where))
    if isinstance(o, Dic):
        return st.alloc(Dic(o.pieces, None, o.where, o.default))
    return v


@ext('random.choice')
def _choice(I, a, kw, st, node):
    v = a[0]
    n = _len(I, [v], {}, st, node)
    if n is ZERO:
        return I.fail(st, 'IndexError', 'choice from empty sequence', node)
    o = st.obj(v)
    if isinstance(o, Seq) and o.kind in ('set', 'gen') or isinstance(o, Dic) and False:
        return I.fail(st, 'TypeError', 'choice from %s' % getattr(o, 'kind', 'dict'), node)
    r = I.opaque_call(mk('ext', 'random.choice'), a, kw, st, node)
    idx = mk('rndidx', r, ty='int')
    return B.getitem(I, v, idx, st, node)


@ext('random.sample')
def _sample(I, a, kw, st, node):
    r = I.opaque_call(mk('ext', 'random.sample'), a, kw, st, node)
    if iskt(a[1], 'int') and kv(a[1]) <= 16:
        n = kv(a[1])
        return st.alloc(Seq('list', tuple(('i', B.getitem(I, a[0], mk('rndidx', r, K(i), ty='int'), st, node)) for i in range(n))))
    return st.alloc(Seq('list', (('sp', mk('sample', I.freeze(a[0], st), a[1], r)),)))


@ext('random.shuffle')
def _shuffle(I, a, kw, st, node):
    r = I.opaque_call(mk('ext', 'random.shuffle'), a, kw, st, node)
    o = st.obj(a[0])
    if isinstance(o, Seq):
        B.mutate(I, a[0], o.with_((('sp', mk('shuffled', I.freeze(a[0], st), r)),)), st, 'shuffle', (), node)
    return NONE


def _path(fn):
    f = getattr(os.path, fn)

    def g(I, a, kw, st, node):
        if all(iskt(x, 'str') for x in a):
            r = f(*[kv(x) for x in a])
            return mk('tup', *[K(x) for x in r]) if isinstance(r, tuple) else K(r)
        if fn == 'join':
            parts = []
            for i, x in enumerate(a):
                if i:
                    parts.append(K('/'))
                parts.append(I.freeze(x, st))
            return B.concat(parts)
        return mk('path', fn, *[I.freeze(x, st) for x in a], ty='str')
    return g


for _n in ('join', 'dirname', 'basename', 'splitext', 'split', 'normpath'):
    TABLE['os.path.' + _n] = _path(_n)


@ext('os.path.abspath', 'os.path.realpath')
def _ident(I, a, kw, st, node):
    return a[0]


@ext('sys.exit', 'exit', 'quit', 'os._exit')
def _exit(I, a, kw, st, node):
    return I.fail(st, 'SystemExit', 'exit', node)


@ext('object')
def _object(I, a, kw, st, node):
    return mk('obj0', I.uid)


@ext('super')
def _super(I, a, kw, st, node):
    return None


@ext('property')
def _property(I, a, kw, st, node):
    return mk('property', a[0])


@ext('staticmethod')
def _static(I, a, kw, st, node):
    return mk('staticmethod', a[0])


@ext('functools.reduce')
def _reduce(I, a, kw, st, node):
    fl = B.flat(I, a[1], st, node)
    if fl is None:
        return None
    if len(a) > 2:
        fl = [a[2]] + fl
    if not fl:
        return I.fail(st, 'TypeError', 'reduce of empty', node)
    r = fl[0]
    for x in fl[1:]:
        r = I.call(a[0], [r, x], {}, st, node)
    return r


@ext('functools.partial')
def _partial(I, a, kw, st, node):
    return None


def _op2(n):
    return lambda I, a, kw, st, node: I.binop(n, a[0], a[1], st, node)


for _n, _m in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'), ('floordiv', 'FloorDiv'), ('mod', 'Mod'),
               ('and_', 'BitAnd'), ('or_', 'BitOr'), ('xor', 'BitXor'), ('lshift', 'LShift'), ('rshift', 'RShift')):
    TABLE['operator.' + _n] = _op2(_m)
