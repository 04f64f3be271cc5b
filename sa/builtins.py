"""Abstract semantics of Python's containers and built-in functions."""
import math
from .terms import *
from .state import *
from .model import *
from .out import *

PASSIVE = ('logging', 'warnings', 'tqdm')


def is_passive(v):
    if v.op == 'ext':
        return v.args[0].split('.')[0] in PASSIVE
    if v.op == 'passive':
        return True
    if v.op == 'ret':
        return is_passive(v.args[0])
    if v.op in ('ref',):
        return True
    return False


def ext_const(full):
    if full == 'math.pi':
        return K(math.pi)
    if full in ('math.inf',):
        return K(float('inf'))
    if full == 'os.sep':
        return K('/')
    if full == 'string.ascii_lowercase':
        return K('abcdefghijklmnopqrstuvwxyz')
    if full == 'math.e':
        return K(math.e)
    return None


# ---------------------------------------------------------------- pieces
def iter_pieces(I, v, st, node):
    op = v.op
    if op == 'ref':
        o = st.obj(v)
        if isinstance(o, Seq):
            return o.pieces
        if isinstance(o, Dic):
            return keys_pieces(o.pieces)
        if isinstance(o, Inst):
            f = I.find_method(v, '__iter__', st)
            if f is not None:
                return iter_pieces(I, I.call(f, [], {}, st, node), st, node)
            f = I.find_method(v, '__getitem__', st)
            if f is None and o.cls is not None and not I.ext_based(o.cls):
                I.fail(st, 'TypeError', '%s is not iterable' % o.cls.name, node)
                return ()
        return (('sp', I.freeze(v, st)),)
    if op == 'tup':
        return tuple(('i', x) for x in v.args)
    if op == 'range':
        return range_pieces(I, v)
    if op == 'k':
        c = kv(v)
        if isinstance(c, (str, bytes)):
            return tuple(('i', K(x)) for x in c)
        I.fail(st, 'TypeError', '%s is not iterable' % type(c).__name__, node)
        return ()
    if op == 'cls' and v.args[0].is_enum:
        return tuple(('i', m) for m in I.enum_members(v.args[0], st))
    if op == 'ite' and not is_numeric(v):
        c = v.args[0]
        d = decide(c, st.pc)
        if d is not None:
            return iter_pieces(I, v.args[1] if d else v.args[2], st, node)
        return merge_pieces(c, tuple(iter_pieces(I, v.args[1], st, node)), tuple(iter_pieces(I, v.args[2], st, node)))
    if is_numeric(v):
        I.fail(st, 'TypeError', 'number is not iterable', node)
        return ()
    if op == 'top':
        st.emit('top', ('iteration over ' + str(v.args[0]),), I.loc(node))
    return (('sp', v),)


def keys_pieces(ps):
    out = []
    for p in ps:
        if p[0] == 'i':
            out.append(('i', p[1][0]))
        elif p[0] == 'if':
            out.append(('if', p[1], keys_pieces(p[2]), keys_pieces(p[3])))
        elif p[0] == 'rep':
            out.append(('rep', p[1], keys_pieces(p[2])))
        else:
            out.append(('sp', mk('keys', p[1])))
    return tuple(out)


def view_pieces(ps, what):
    out = []
    for p in ps:
        if p[0] == 'i':
            out.append(('i', p[1][1] if what == 'values' else mk('tup', *p[1])))
        elif p[0] == 'if':
            out.append(('if', p[1], view_pieces(p[2], what), view_pieces(p[3], what)))
        elif p[0] == 'rep':
            out.append(('rep', p[1], view_pieces(p[2], what)))
        else:
            out.append(('sp', mk(what, p[1])))
    return tuple(out)


def range_count(a, b, s):
    if isnum(s) and kv(s) == 1:
        n = sub(b, a)
    elif isnum(s) and kv(s) > 0:
        n = floordiv(add(sub(b, a), K(kv(s) - 1)), s)
    elif isnum(s) and kv(s) < 0:
        n = floordiv(add(sub(a, b), K(-kv(s) - 1)), K(-kv(s)))
    else:
        return None
    if isnum(n):
        return K(max(0, int(kv(n))))
    return n


def range_pieces(I, v):
    a, b, s = v.args
    n = range_count(a, b, s)
    if n is None:
        return (('sp', v),)
    lim = I.cfg.get('unroll', 64)
    if iskt(n, 'int') and kv(n) <= lim:
        return tuple(('i', add(a, mul(s, K(i)))) for i in range(kv(n)))
    lp = I.new_loop('for', n)
    return (('rep', lp, (('i', add(a, mul(s, lp.idx()))),)),)


def flat(I, v, st, node=None):
    """list of element values or None"""
    ps = iter_pieces(I, v, st, node)
    if all(p[0] == 'i' for p in ps):
        return [p[1] for p in ps]
    return None


def unpack(I, v, n, st, node):
    if v.op == 'ite' and not is_numeric(v) and n is not None:
        a = unpack(I, v.args[1], n, st, node)
        b = unpack(I, v.args[2], n, st, node)
        if a is not None and b is not None and len(a) == len(b):
            return [ite(v.args[0], x, y) for x, y in zip(a, b)]
        return None
    if v.op in ('tup', 'ref', 'k', 'range'):
        ps = iter_pieces(I, v, st, node)
        if all(p[0] == 'i' for p in ps):
            return [p[1] for p in ps]
        if n is not None:
            return [getitem(I, v, K(i), st, node) for i in range(n)]
        return None
    if n is not None:
        return [getitem(I, v, K(i), st, node) for i in range(n)]
    return None


# ---------------------------------------------------------------- lengths and items
def len_of_term(t):
    if t.op == 'k' and isinstance(kv(t), (str, bytes)):
        return K(len(kv(t)))
    if t.op in ('keys', 'values', 'items', 'enumerate', 'listof', 'sorted', 'reversed'):
        return len_of_term(t.args[0])
    if t.op == 'setat':
        return len_of_term(t.args[0])
    if t.op == 'tup':
        return K(len(t.args))
    if t.op == 'seq':
        n = pieces_len(t.args[1], t.args[0] == 'set')
        if n is not None:
            return n
    if t.op == 'ite':
        return ite(t.args[0], len_of_term(t.args[1]), len_of_term(t.args[2]))
    if t.op == 'zip' and t.args:
        ls = [len_of_term(x) for x in t.args]
        if all(x is ls[0] for x in ls):
            return ls[0]
    if t.ty == 'bytes' and t.op in ('sliceof', 'rd'):
        from . import tape
        if t.op == 'rd' or t.args[0].op == 'rd':
            r = tape.bytes_len(t) if t.op == 'rd' or (iskt(t.args[2], 'int') or t.args[2] is NONE) else None
            if r is not None and not (r.op == 'len' and r.args[0] is t):
                return r
    return mk('len', t, ty='int')


def pieces_len(ps, uniq=False):
    """length of structured contents (None when it depends on value equality)"""
    if uniq and not all(p[0] == 'i' and (isk(p[1]) or p[1].op in ('enumm', 'cls')) for p in ps):
        if len(ps) == 1 and ps[0][0] == 'sp':
            return len_of_term(ps[0][1])
        if not (len(ps) == 1 and ps[0][0] == 'i'):
            return None
    n = ZERO
    for p in ps:
        if p[0] == 'i':
            n = add(n, K(1))
        elif p[0] == 'if':
            a, b = pieces_len(p[2]), pieces_len(p[3])
            if a is None or b is None:
                return None
            n = add(n, ite(p[1], a, b))
        elif p[0] == 'rep':
            inner = pieces_len(p[2])
            if inner is None:
                return None
            lp = p[1]
            if isnum(inner) and kv(inner) == 0:
                continue
            if lp.kind == 'for' and lp.count is not None and not lp.exits and isnum(inner):
                n = add(n, mul(nonneg(lp.count), inner))
            else:
                n = add(n, mk('sumover', lp, inner, ty='int'))
        else:
            n = add(n, len_of_term(p[1]))
    return n


def nonneg(c):
    if isnum(c):
        return K(max(0, kv(c)))
    if c.op == 'len' or (c.op == 'max'):
        return c
    return c


def len_of(I, v, st, node):
    o = st.obj(v)
    if isinstance(o, Seq):
        n = pieces_len(o.pieces, o.kind == 'set')
        return n if n is not None else mk('len', I.freeze(v, st), ty='int')
    if isinstance(o, Dic):
        ps = o.pieces
        if len(ps) == 1 and ps[0][0] == 'sp':
            return len_of_term(ps[0][1])
        if all(p[0] == 'i' and const_key(p[1][0]) for p in ps):
            return K(len(ps))
        return mk('len', I.freeze(v, st), ty='int')
    return None


def const_key(k):
    return isk(k) or k.op in ('enumm', 'cls', 'fn') or (k.op == 'tup' and all(const_key(x) for x in k.args))


def elem_ty(t):
    if isinstance(t.ty, tuple) and t.ty[0] in ('list', 'set', 'tuple*', 'dict') and len(t.ty) > 1:
        return t.ty[1]
    if t.ty == 'str':
        return 'str'
    if t.ty == 'bytes':
        return 'int'
    return None


def item_of_term(I, t, idx):
    if t.op in ('keys', 'values', 'items'):
        b = t.args[0]
        kt = vt = None
        if isinstance(b.ty, tuple) and b.ty[0] == 'dict' and len(b.ty) > 2:
            kt, vt = b.ty[1], b.ty[2]
        key = I.typed(mk('key', b, idx), kt)
        if t.op == 'keys':
            return key
        val = I.typed(mk('get', b, key), vt)
        return val if t.op == 'values' else mk('tup', key, val)
    if t.op == 'enumerate':
        return mk('tup', add(idx, t.args[1]), item_of_term(I, t.args[0], idx))
    if t.op == 'listof':
        return item_of_term(I, t.args[0], idx)
    if t.op == 'setat' and not (iskt(t.args[1], 'int') and kv(t.args[1]) < 0) and not (iskt(idx, 'int') and kv(idx) < 0):
        return ite(I.num_equal(t.args[1], idx), t.args[2], item_of_term(I, t.args[0], idx))
    if t.op == 'zip':
        return mk('tup', *[item_of_term(I, x, idx) for x in t.args])
    if t.op == 'tup' and iskt(idx, 'int') and -len(t.args) <= kv(idx) < len(t.args):
        return t.args[kv(idx)]
    if t.op == 'range':
        return add(t.args[0], mul(t.args[2], idx))
    if t.op == 'seq':
        r = item_pieces(I, t.args[1], idx)
        if r is not None:
            return r
    return I.typed(mk('item', t, idx), elem_ty(t))


def item_pieces(I, ps, idx):
    """element of structured contents at idx, None when unknown"""
    if iskt(idx, 'int'):
        n = kv(idx)
        if n >= 0:
            for j, p in enumerate(ps):
                if p[0] != 'i':
                    if p[0] == 'sp' and j <= n:
                        if j == len(ps) - 1 or True:
                            return item_of_term(I, p[1], K(n - j)) if j == len(ps) - 1 else None
                    if p[0] == 'rep' and j == len(ps) - 1:
                        return rep_item(I, p, K(n - j))
                    return None
                if j == n:
                    return p[1]
            return None
        if -n <= len(ps) and all(p[0] == 'i' for p in ps[n:]):
            return ps[n][1]
        if len(ps) == 1 and ps[0][0] == 'rep':
            ln = pieces_len(ps)
            if ln is not None:
                return rep_item(I, ps[0], add(ln, idx))
        if len(ps) == 1 and ps[0][0] == 'sp':
            return item_of_term(I, ps[0][1], idx)
        return None
    if len(ps) == 1:
        if ps[0][0] == 'sp':
            return item_of_term(I, ps[0][1], idx)
        if ps[0][0] == 'rep':
            return rep_item(I, ps[0], idx)
    return None


def rep_item(I, p, idx):
    lp = p[1]
    if lp.kind == 'for' and not lp.exits and len(p[2]) == 1 and p[2][0][0] == 'i' and isinstance(p[2][0][1], T):
        v = p[2][0][1]
        bad = [False]
        i0 = lp.idx()

        def f(x):
            if x is i0:
                return idx
            if x.op == 'lv' and x.args[0] == lp.lid:
                bad[0] = True
            if x.op == 'ref':
                bad[0] = True
            return None
        r = subst(v, f)
        if not bad[0]:
            return r
    return None


def getitem(I, base, idx, st, node):
    o = st.obj(base)
    if isinstance(o, Dic):
        return dict_get(I, base, idx, None, st, node)
    if idx.op == 'slice':
        return slice_get(I, base, idx, st, node)
    if isinstance(o, Seq) or base.op == 'tup':
        ps = o.pieces if isinstance(o, Seq) else tuple(('i', x) for x in base.args)
        if isinstance(o, Seq) and o.kind in ('set', 'gen'):
            return I.fail(st, 'TypeError', '%s is not subscriptable' % o.kind, node)
        if idx.op == 'ite' and not isnum(idx):
            return I.fork(idx.args[0], lambda x: getitem(I, base, idx.args[1], x, node),
                          lambda x: getitem(I, base, idx.args[2], x, node), st)
        if iskt(idx, 'bool'):
            idx = K(int(kv(idx)))
        if iskt(idx, 'str') or iskt(idx, 'float') or idx is NONE:
            return I.fail(st, 'TypeError', 'bad index %s' % show(idx), node)
        isflat = all(p[0] == 'i' for p in ps)
        if isflat and iskt(idx, 'int') and not (-len(ps) <= kv(idx) < len(ps)):
            return I.fail(st, 'IndexError', 'index %d out of range (length %d)' % (kv(idx), len(ps)), node)
        r = item_pieces(I, ps, idx)
        if r is not None:
            return r
        if isflat and not isnum(idx) and 0 < len(ps) <= 64:
            return select([p[1] for p in ps], idx, st)
        return mk('item', I.freeze(base, st), idx)
    if base.op == 'k' and isinstance(kv(base), (str, bytes)):
        if iskt(idx, 'int'):
            try:
                return K(kv(base)[kv(idx)])
            except IndexError:
                return I.fail(st, 'IndexError', 'string index out of range', node)
        return mk('item', base, idx, ty='str' if isinstance(kv(base), str) else 'int')
    if base is NONE or is_numeric(base):
        return I.fail(st, 'TypeError', 'not subscriptable: %s' % show(base), node)
    if base.op == 'top':
        return top('item of unknown')
    fi = I.freeze(idx, st)
    if isinstance(base.ty, tuple) and base.ty[0] == 'dict':
        return I.typed(mk('get', base, fi), base.ty[2] if len(base.ty) > 2 else None)
    return item_of_term(I, I.freeze(base, st), fi)


def select(vals, idx, st):
    r = vals[-1]
    for i in range(len(vals) - 2, -1, -1):
        c = num_eq(idx, K(i))
        d = decide(c, st.pc)
        if d is True:
            r = vals[i]
        elif d is False:
            continue
        else:
            r = ite(c, vals[i], r)
    return r


def slice_get(I, base, idx, st, node):
    lo, hi, step = idx.args
    o = st.obj(base)
    if all(x is NONE or iskt(x, 'int') for x in idx.args):
        sl = slice(*[None if x is NONE else kv(x) for x in idx.args])
        if base.op == 'k':
            return K(kv(base)[sl])
        ps = None
        if isinstance(o, Seq):
            ps = o.pieces
        elif base.op == 'tup':
            ps = tuple(('i', x) for x in base.args)
        if ps is not None and all(p[0] == 'i' for p in ps):
            r = ps[sl]
            return mk('tup', *[p[1] for p in r]) if base.op == 'tup' else st.alloc(o.__class__(o.kind, r, None, I.loc(node)))
        if ps is not None and sl == slice(None):
            return st.alloc(Seq(o.kind, ps, None, I.loc(node)))
        if ps is not None and step is NONE and lo in (NONE, ZERO) and hi is not NONE and 0 <= kv(hi) <= len(ps) and \
                all(p[0] == 'i' for p in ps[:kv(hi)]):
            return st.alloc(Seq(o.kind, ps[:kv(hi)], None, I.loc(node)))
        if ps is not None and step is NONE and hi is NONE and kv(lo) >= 0 and kv(lo) <= len(ps) and \
                all(p[0] == 'i' for p in ps[:kv(lo)]):
            return st.alloc(Seq(o.kind, ps[kv(lo):], None, I.loc(node)))
    t = mk('sliceof', I.freeze(base, st), lo, hi, step, ty=base.ty if base.ty in ('str', 'bytes') else None)
    if isinstance(o, Seq):
        return st.alloc(Seq(o.kind, (('sp', t),), None, I.loc(node)))
    return t


# ---------------------------------------------------------------- mutation
def mutate(I, ref, new, st, what, args, node):
    """replace container object and record the effect when it is not local to the computation"""
    o = st.obj(ref)
    if o.tag is not None:
        st.emit('mut', (o.tag, what, tuple(I.freeze(a, st) for a in args)), I.loc(node))
    elif ref.args[0] in I.base:
        st.emit('mut', (mk('global', o.where), what, tuple(I.freeze(a, st) for a in args)), I.loc(node))
    st.set(ref.args[0], new)
    if isinstance(o, Dic) and o.inst is not None:
        # writing to obj.__dict__
        if not all(p[0] == 'i' and iskt(p[1][0], 'str') for p in new.pieces):
            raise GiveUp('__dict__ of an object is changed in an unknown way')
        i = st.obj(o.inst)
        flds = {kv(p[1][0]): p[1][1] for p in new.pieces}
        if i.tag is not None:
            for k, v in flds.items():
                if i.fields.get(k) is not v:
                    st.emit('setattr', (i.tag, k, I.freeze(v, st)), I.loc(node))
        st.set(o.inst.args[0], Inst(i.cls, flds, i.tag, i.where))


def has_t(cont, key):
    if key.op == 'key' and key.args[0] is cont:
        return TRUE
    return mk('has', cont, key, ty='bool')


CONSTS = {}
INDEX = {}


def const_key(t):
    """the value of a constant key (in a tuple), None if it is not constant"""
    try:
        return CONSTS[t]
    except KeyError:
        pass
    if t.op == 'k':
        v = (kv(t),)
    elif t.op == 'tup' and all(a.op == 'k' for a in t.args):
        v = tuple(kv(a) for a in t.args) + ('t',)
    else:
        v = None
    CONSTS[t] = v
    return v


def const_index(ps, build=True):
    """positions of the keys of a dictionary all of whose keys are constant, else None"""
    e = INDEX.get(id(ps))
    if e is not None and e[0] is ps:
        return e[1]
    if not build:
        return None
    ix = {}
    for j, p in enumerate(ps):
        k = const_key(p[1][0]) if p[0] == 'i' else None
        if k is None or k in ix:
            ix = None
            break
        ix[k] = j
    keep_index(ps, ix)
    return ix


def keep_index(ps, ix):
    if len(INDEX) > 200:
        for k in list(INDEX)[:100]:
            del INDEX[k]
    INDEX[id(ps)] = (ps, ix)


def const_find(ps, key):
    """position of a constant key among constant keys; -1 if it is missing, None if that is not known"""
    if len(ps) < 6:
        return None
    k = const_key(key)
    if k is None:
        return None
    ix = const_index(ps)
    if ix is None:
        return None
    j = ix.get(k)
    if j is None:
        return -1
    return j if j < len(ps) and const_key(ps[j][1][0]) == k else None


def dict_lookup(I, ps, key, st, node):
    """[(cond, value)] , complete?  searching last to first; complete False when an opaque base may hold the key"""
    j = const_find(ps, key)
    if j is not None:
        return ([(TRUE, ps[j][1][1])], True) if j >= 0 else ([], True)
    res = []
    for p in reversed(ps):
        if p[0] == 'i':
            c = I.equal(p[1][0], key, st, node)
            d = decide(c, st.pc)
            if d is True:
                res.append((TRUE, p[1][1]))
                return res, True
            if d is False:
                continue
            res.append((c, p[1][1]))
        elif p[0] == 'if':
            ra, ca = dict_lookup(I, p[2], key, st, node)
            rb, cb = dict_lookup(I, p[3], key, st, node)
            for c, v in ra:
                res.append((and_(p[1], c), v))
            for c, v in rb:
                res.append((and_(not_(p[1]), c), v))
            if not (ca or cb) and False:
                return res, False
        elif p[0] == 'sp':
            vt = p[1].ty[2] if isinstance(p[1].ty, tuple) and len(p[1].ty) > 2 else None
            fk = I.freeze(key, st)
            res.append((has_t(p[1], fk), I.typed(mk('get', p[1], fk), vt)))
            return res, False
        else:
            r = rep_lookup(I, p, key)
            if r is not None:
                res.append((TRUE, r))
                return res, True
            fk = I.freeze(key, st)
            t = mk('dic', I.freeze_pieces((p,), st, ()))
            res.append((has_t(t, fk), mk('get', t, fk)))
    return res, True


def rep_lookup(I, p, key):
    """value stored with a key which is the key of the same repeated insertion in an iteration over it"""
    if len(p[2]) != 1 or p[2][0][0] != 'i':
        return None
    k, v = p[2][0][1]
    if key is k:
        return v
    for lp in reversed(I.loopctx):
        o = lp
        while o is not None:
            if o is p[1]:
                ren = I.renamer(p[1], lp)
                if ren(k) is key:
                    return ren(v)
            o = getattr(o, 'origin', None)
    return None


def dict_get(I, ref, key, default, st, node):
    if key.op == 'ite' and not is_numeric(key):
        return I.fork(key.args[0], lambda x: dict_get(I, ref, key.args[1], default, x, node),
                      lambda x: dict_get(I, ref, key.args[2], default, x, node), st)
    o = st.obj(ref)
    res, complete = dict_lookup(I, o.pieces, key, st, node)
    if default is None and o.default is not None and not (res and res[-1][0] is TRUE):
        # defaultdict
        has = or_(*[c for c, _ in res])
        d = decide(has, st.pc)
        if d is not True:
            def missing(x):
                v = I.call(o.default, [], {}, x, node)
                setitem(I, ref, key, v, x, node)
                return v
            def present(x):
                r = res[-1][1]
                for c, v in reversed(res[:-1]):
                    r = ite(c, v, r)
                return r
            if not res:
                return missing(st)
            return I.fork(has, present, missing, st)
    if not res:
        if default is None:
            return I.fail(st, 'KeyError', 'key %s is missing' % show(key), node)
        return default
    if default is None:
        has = or_(*[c for c, _ in res])
        d = decide(has, st.pc)
        if d is None:
            bad = not_(has)
            st.emit('if', (bad, (E('raise', (mk('exc', 'KeyError'), 'key %s may be missing' % show(key)), I.loc(node)),), ()), I.loc(node))
            st.pc = facts_with(st.pc, has, True)
        r = res[-1][1]
        rest = res[:-1]
    else:
        r = default
        rest = res
    for c, v in reversed(rest):
        r = ite(c, v, r)
    return r


def dict_has(I, ref, key, st, node):
    res, complete = dict_lookup(I, st.obj(ref).pieces, key, st, node)
    return or_(*[c for c, _ in res]) if res else FALSE


def setitem(I, base, idx, v, st, node):
    o = st.obj(base)
    if isinstance(o, Dic):
        j = const_find(o.pieces, idx)
        if j is not None:
            ix = const_index(o.pieces)
            if j >= 0:
                ps = o.pieces[:j] + (('i', (o.pieces[j][1][0], v)),) + o.pieces[j + 1:]
            else:
                ps = o.pieces + (('i', (idx, v)),)
                if ix.setdefault(const_key(idx), len(ps) - 1) != len(ps) - 1:
                    ix = None
            new = o.with_(ps)
            if ix is not None:
                keep_index(new.pieces, ix)
            mutate(I, base, new, st, 'setitem', (idx, v), node)
            return
        ps = list(o.pieces)
        conds = []
        for j in range(len(ps) - 1, -1, -1):
            p = ps[j]
            if p[0] != 'i':
                break
            c = I.equal(p[1][0], idx, st, node)
            d = decide(c, st.pc)
            if d is True:
                ps[j] = ('i', (p[1][0], v))
                mutate(I, base, o.with_(tuple(ps)), st, 'setitem', (idx, v), node)
                return
            if d is None:
                conds.append((j, c))
        if conds and all(p[0] == 'i' for p in ps):
            for j, c in conds:
                ps[j] = ('i', (ps[j][1][0], ite(c, v, ps[j][1][1])))
            anyc = or_(*[c for _, c in conds])
            ps.append(('if', anyc, (), (('i', (idx, v)),)))
        else:
            ps.append(('i', (idx, v)))
        mutate(I, base, o.with_(tuple(ps)), st, 'setitem', (idx, v), node)
        return
    if isinstance(o, Seq):
        ps = o.pieces
        if iskt(idx, 'int') and all(p[0] == 'i' for p in ps):
            n = kv(idx)
            if not -len(ps) <= n < len(ps):
                I.fail(st, 'IndexError', 'assignment index out of range', node)
                return
            n %= len(ps)
            new = ps[:n] + (('i', v),) + ps[n + 1:]
        elif iskt(idx, 'int') and kv(idx) >= 0 and len(ps) > kv(idx) and all(p[0] == 'i' for p in ps[:kv(idx) + 1]):
            n = kv(idx)
            new = ps[:n] + (('i', v),) + ps[n + 1:]
        elif idx.op == 'slice' and all(p[0] == 'i' for p in ps) and all(a is NONE or iskt(a, 'int') for a in idx.args) and slice_items(I, v, st) is not None:
            l = list(ps)
            try:
                l[slice(*[None if a is NONE else kv(a) for a in idx.args])] = [('i', x) for x in slice_items(I, v, st)]
            except ValueError as e:
                I.fail(st, 'ValueError', str(e), node)
                return
            new = tuple(l)
        elif all(p[0] == 'i' for p in ps) and idx.op != 'slice' and len(ps) <= 64:
            new = tuple(('i', merge_val(num_eq(idx, K(i)), v, p[1])) for i, p in enumerate(ps))
        else:
            new = (('sp', mk('setat', I.freeze(base, st), I.freeze(idx, st), I.freeze(v, st), ty=o.tag.ty if o.tag is not None else None)),)
        mutate(I, base, o.with_(new), st, 'setitem', (idx, v), node)
        return
    if base.op == 'tup' or isk(base):
        I.fail(st, 'TypeError', 'item assignment on immutable value', node)
        return
    st.emit('mut', (I.freeze(base, st), 'setitem', (I.freeze(idx, st), I.freeze(v, st))), I.loc(node))


def slice_items(I, v, st):
    if v.op == 'tup':
        return list(v.args)
    o = st.obj(v)
    if isinstance(o, Seq) and o.kind == 'list' and all(p[0] == 'i' for p in o.pieces):
        return [p[1] for p in o.pieces]
    return None


def delitem(I, base, idx, st, node):
    if st.dead:
        return
    o = st.obj(base)
    if isinstance(o, Inst):
        f = I.find_method(base, '__delitem__', st)
        if f is not None:
            I.call(f, [idx], {}, st, node)
            return
    if isinstance(o, Dic):
        j = const_find(o.pieces, idx)
        if j is not None and j >= 0:
            mutate(I, base, o.with_(o.pieces[:j] + o.pieces[j + 1:]), st, 'delitem', (idx,), node)
            return
        ps = list(o.pieces)
        out = []
        found = FALSE
        opaque = False
        for p in ps:
            if p[0] == 'i':
                c = I.equal(p[1][0], idx, st, node)
                d = decide(c, st.pc)
                if d is True:
                    found = TRUE
                    continue
                if d is None:
                    found = or_(found, c)
                    out.append(('if', c, (), (p,)))
                    continue
                out.append(p)
            else:
                opaque = True
                out.append(p)
        if opaque:
            new = (('sp', mk('without', I.freeze(base, st), I.freeze(idx, st), ty=o.tag.ty if o.tag is not None else None)),)
            has = dict_has(I, base, idx, st, node)
            if decide(has, st.pc) is not True:
                st.emit('if', (not_(has), (E('raise', (mk('exc', 'KeyError'), 'deleted key may be missing'), I.loc(node)),), ()), I.loc(node))
            mutate(I, base, o.with_(new), st, 'delitem', (idx,), node)
            return
        if found is FALSE:
            I.fail(st, 'KeyError', 'deleting missing key', node)
            return
        mutate(I, base, o.with_(tuple(out)), st, 'delitem', (idx,), node)
        return
    if isinstance(o, Seq):
        ps = o.pieces
        if iskt(idx, 'int') and all(p[0] == 'i' for p in ps) and -len(ps) <= kv(idx) < len(ps):
            l = list(ps)
            del l[kv(idx)]
            mutate(I, base, o.with_(tuple(l)), st, 'delitem', (idx,), node)
            return
        mutate(I, base, o.with_((('sp', mk('without', I.freeze(base, st), I.freeze(idx, st))),)), st, 'delitem', (idx,), node)
        return
    st.emit('mut', (I.freeze(base, st), 'delitem', (I.freeze(idx, st),)), I.loc(node))


def seq_extend(I, ref, other, st, node):
    ps = tuple(iter_pieces(I, other, st, node))
    o = st.obj(ref)
    if o.kind == 'set':
        for p in ps:
            if p[0] == 'i':
                set_add(I, ref, p[1], st, node)
            else:
                o = st.obj(ref)
                mutate(I, ref, o.with_(o.pieces + (p,)), st, 'update', (other,), node)
        return
    mutate(I, ref, o.with_(o.pieces + ps), st, 'extend', (other,), node)


def set_add(I, ref, v, st, node):
    o = st.obj(ref)
    c = contains(I, ref, v, st, node)
    d = decide(c, st.pc)
    if d is True:
        if o.tag is not None:
            mutate(I, ref, o, st, 'add', (v,), node)
        return
    new = o.pieces + ((('i', v),) if d is False or any(p[0] != 'i' for p in o.pieces) or not const_key(I.freeze(v, st))
                      else (('if', c, (), (('i', v),)),))
    mutate(I, ref, o.with_(new), st, 'add', (v,), node)


def dict_update(I, ref, other, st, node):
    oo = st.obj(other)
    if isinstance(oo, Dic):
        for p in oo.pieces:
            if p[0] == 'i':
                setitem(I, ref, p[1][0], p[1][1], st, node)
            else:
                o = st.obj(ref)
                mutate(I, ref, o.with_(o.pieces + (p,)), st, 'update', (other,), node)
        return
    o = st.obj(ref)
    mutate(I, ref, o.with_(o.pieces + (('sp', I.freeze(other, st)),)), st, 'update', (other,), node)


# ---------------------------------------------------------------- membership
def contains(I, cont, x, st, node):
    o = st.obj(cont)
    if isinstance(o, Dic):
        return dict_has(I, cont, x, st, node)
    if isinstance(o, Seq) or cont.op == 'tup':
        ps = o.pieces if isinstance(o, Seq) else tuple(('i', y) for y in cont.args)
        return pieces_has(I, ps, x, st, node)
    if cont.op == 'k':
        if isk(x):
            try:
                return K(kv(x) in kv(cont))
            except TypeError:
                return I.fail(st, 'TypeError', 'membership', node)
    if cont.op == 'range' and is_numeric(x) and isnum(cont.args[2]) and kv(cont.args[2]) == 1:
        return and_(le(cont.args[0], x), lt(x, cont.args[1]))
    if cont.op == 'cls' and cont.args[0].is_enum:
        return pieces_has(I, iter_pieces(I, cont, st, node), x, st, node)
    if cont.op in ('keys',):
        return has_t(cont.args[0], I.freeze(x, st))
    if cont is NONE or is_numeric(cont):
        return I.fail(st, 'TypeError', 'not iterable', node)
    return has_t(I.freeze(cont, st), I.freeze(x, st))


def pieces_has(I, ps, x, st, node):
    cs = []
    for p in ps:
        if p[0] == 'i':
            c = I.equal(p[1], x, st, node)
            if c is TRUE:
                return TRUE
            cs.append(c)
        elif p[0] == 'if':
            cs.append(or_(and_(p[1], pieces_has(I, p[2], x, st, node)), and_(not_(p[1]), pieces_has(I, p[3], x, st, node))))
        elif p[0] == 'sp':
            t = p[1]
            if t.op == 'keys':
                t = t.args[0]
            cs.append(has_t(t, I.freeze(x, st)))
        else:
            inner = pieces_has(I, p[2], x, st, node)
            cs.append(mk('exists', p[1], inner, ty='bool'))
    return or_(*cs)


# ---------------------------------------------------------------- operators on containers / strings
def seq_binop(I, opn, a, b, st, node):
    oa, ob = st.obj(a), st.obj(b)
    if opn == 'Add':
        if a.op == 'tup' and b.op == 'tup':
            return mk('tup', *(a.args + b.args))
        if isinstance(oa, Seq) and isinstance(ob, Seq) and oa.kind == ob.kind:
            return st.alloc(Seq(oa.kind, oa.pieces + ob.pieces, None, I.loc(node)))
        if isinstance(oa, Seq) and (b.op in ('tup', 'k') or is_numeric(b)) and oa.kind == 'list':
            return I.fail(st, 'TypeError', 'list + non-list', node)
        if isinstance(oa, Seq):
            return st.alloc(Seq(oa.kind, oa.pieces + (('sp', I.freeze(b, st)),), None, I.loc(node)))
        if isinstance(ob, Seq):
            return st.alloc(Seq(ob.kind, (('sp', I.freeze(a, st)),) + ob.pieces, None, I.loc(node)))
        if isinstance(oa, Dic) or isinstance(ob, Dic):
            return I.fail(st, 'TypeError', 'dict has no +', node)
    if opn == 'Mult':
        for x, y in ((a, b), (b, a)):
            ps = x.args if x.op == 'tup' else None
            ox = st.obj(x)
            if iskt(y, 'int', 'bool'):
                n = max(0, int(kv(y)))
                if x.op == 'tup':
                    return mk('tup', *(x.args * n))
                if isinstance(ox, Seq) and n * max(1, len(ox.pieces)) <= 5000:
                    return st.alloc(Seq(ox.kind, ox.pieces * n, None, I.loc(node)))
            elif isinstance(ox, Seq) and is_numeric(y):
                lp = I.new_loop('for', y)
                return st.alloc(Seq(ox.kind, (('rep', lp, ox.pieces),), None, I.loc(node)))
    if isinstance(oa, Seq) and oa.kind == 'set' and isinstance(ob, Seq):
        if opn == 'BitOr':
            r = st.alloc(Seq('set', oa.pieces, None, I.loc(node)))
            seq_extend(I, r, b, st, node)
            return r
        fa, fb = flat(I, a, st), flat(I, b, st)
        if fa is not None and fb is not None:
            keep = []
            for x in fa:
                c = pieces_has(I, tuple(('i', y) for y in fb), x, st, node)
                if opn == 'Sub':
                    c = not_(c)
                if c is TRUE:
                    keep.append(('i', x))
                elif c is not FALSE:
                    keep.append(('if', c, (('i', x),), ()))
            if opn in ('Sub', 'BitAnd'):
                return st.alloc(Seq('set', tuple(keep), None, I.loc(node)))
        return st.alloc(Seq('set', (('sp', mk('setop', opn, I.freeze(a, st), I.freeze(b, st))),), None, I.loc(node)))
    if has_top(a) or has_top(b):
        return top('operand')
    return mk('binop', opn, I.freeze(a, st), I.freeze(b, st))


def concat(parts):
    out = []
    for p in parts:
        if p.op == 'cat':
            out.extend(p.args)
        else:
            out.append(p)
    r = []
    for p in out:
        if isk(p) and isinstance(kv(p), (str, bytes)):
            if not kv(p):
                continue
            if r and isk(r[-1]) and type(kv(r[-1])) is type(kv(p)):
                r[-1] = K(kv(r[-1]) + kv(p))
                continue
        r.append(p)
    if not r:
        return K('') if not parts or not iskt(parts[0], 'bytes') else K(b'')
    if len(r) == 1:
        return r[0]
    ty = 'bytes' if any(x.ty == 'bytes' or iskt(x, 'bytes') for x in r) else 'str'
    return mk('cat', *r, ty=ty)


def is_strlike(v):
    return v.ty in ('str', 'bytes') or iskt(v, 'str', 'bytes')


def str_binop(I, opn, a, b, st, node):
    if opn == 'Add':
        for x, y in ((a, b), (b, a)):
            if is_strlike(x) and (is_numeric(y) or y is NONE or y.op in ('tup', 'ref', 'enumm', 'cls')):
                return I.fail(st, 'TypeError', 'cannot concatenate string and non-string', node)
        return concat([a, b])
    if opn == 'Mod' and is_strlike(a):
        return percent(I, a, b, st, node)
    if opn == 'Mult':
        for x, y in ((a, b), (b, a)):
            if iskt(x, 'str', 'bytes') and iskt(y, 'int', 'bool'):
                return K(kv(x) * kv(y))
        return mk('strmul', a, b, ty='bytes' if a.ty == 'bytes' or iskt(a, 'bytes') or b.ty == 'bytes' or iskt(b, 'bytes') else 'str')
    return I.fail(st, 'TypeError', 'bad string operator ' + opn, node)


def percent(I, a, b, st, node):
    fb = I.freeze(b, st)
    if isk(a):
        import re
        specs = re.findall(r'%(?:\((\w+)\))?([-#0 +]*\d*(?:\.\d+)?[hlL]?)([diouxXeEfFgGcrsa%])', kv(a) if isinstance(kv(a), str) else '')
        n = len([s for s in specs if s[2] != '%'])
        if not any(s[0] for s in specs):
            args = list(b.args) if b.op == 'tup' else [b]
            if (b.op == 'tup' or (b.op != 'ref' and not (b.op == 'sym'))) and len(args) != n and isinstance(kv(a), str):
                return I.fail(st, 'TypeError', 'format string needs %d values, got %d' % (n, len(args)), node)
            if all(isk(x) for x in args):
                try:
                    return K(kv(a) % tuple(kv(x) for x in args))
                except Exception:
                    return I.fail(st, 'TypeError', 'bad %% format', node)
            if isinstance(kv(a), str):
                parts = re.split(r'%(?:\(\w+\))?[-#0 +]*\d*(?:\.\d+)?[hlL]?[diouxXeEfFgGcrsa%]', kv(a))
                out = [K(parts[0])]
                i = 0
                for s, txt in zip(specs, parts[1:]):
                    if s[2] == '%':
                        out.append(K('%'))
                    else:
                        x = args[i]
                        i += 1
                        if s[2] == 's' and not s[1]:
                            out.append(to_str(I, x, st, '', node))
                        elif s[2] in 'di' and not s[1] and is_int(x):
                            out.append(to_str(I, x, st, '', node))
                        else:
                            out.append(mk('fmt', I.freeze(x, st), s[1] + s[2], ty='str'))
                    out.append(K(txt))
                return concat(out)
    return mk('percent', a, fb, ty='bytes' if iskt(a, 'bytes') or a.ty == 'bytes' else 'str')


def to_str(I, t, st, spec, node):
    if t.op == 'ite' and not is_numeric(t):
        return I.fork(t.args[0], lambda x: to_str(I, t.args[1], x, spec, node), lambda x: to_str(I, t.args[2], x, spec, node), st)
    if isk(t):
        try:
            return K(format(kv(t), spec) if spec else str(kv(t)))
        except Exception:
            return I.fail(st, 'ValueError', 'bad format %s' % spec, node)
    if not spec and t.ty == 'str':
        return t
    if t.op == 'cls' and not spec:
        return K("<class '%s.%s'>" % (t.args[0].module.name, t.args[0].name))
    if t.op == 'ext' and not spec:
        import builtins
        b = getattr(builtins, t.args[0], None)
        if isinstance(b, type) or t.args[0] in ('module', 'function', 'method', 'NoneType', 'builtin_function_or_method') or t.args[0].startswith('_frozen'):
            return K("<class '%s'>" % t.args[0])
    o = st.obj(t)
    if isinstance(o, Inst) and not spec:
        for m in ('__str__', '__repr__'):
            f = I.find_method(t, m, st)
            if f is not None:
                return I.call(f, [], {}, st, node)
    if t.op == 'enumm' and not spec:
        f = I.class_attr(t.args[0], '__str__', st)[0]
        if f is None:
            return K('%s.%s' % (t.args[0].name, t.args[1]))
    if 'text' in I.cfg and not spec:
        r = I.cfg['text'](I, t, st, node)
        if r is not None:
            return r
    ft = I.freeze(t, st)
    return mk('str', ft, ty='str') if not spec else mk('fmt', ft, spec, ty='str')


def call_ext(I, name, args, kw, st, node):
    from . import bext
    if name.split('.')[0] in ('str', 'bytes', 'dict', 'list', 'set', 'tuple') and '.' in name and args:
        # unbound method of a builtin type: str.encode(x)
        return call_method(I, args[0], name.split('.', 1)[1], args[1:], kw, st, node)
    return bext.call_ext(I, name, args, kw, st, node)


def call_method(I, base, name, args, kw, st, node):
    from . import bmethods
    return bmethods.call_method(I, base, name, args, kw, st, node)


def type_of(I, v, st):
    from . import bext
    return bext.type_of(I, v, st)
