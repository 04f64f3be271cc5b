"""Value-number terms: the abstract domain of the analyser.

Every abstract value is an interned, immutable term ``T(op, args, ty)``.
Arithmetic is kept in polynomial normal form, booleans in a flattened
and/or/not normal form over canonical comparison atoms, and joins of two
control-flow paths are gated values ``ite(cond, a, b)``.  Equality of terms is
identity.  Nothing in here touches code under analysis.
"""
from fractions import Fraction
import math

_TABLE = {}
_SERIAL = [0]


class T:
    __slots__ = ('op', 'args', 'ty', 'sid', 'size', '_hash')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.sid < o.sid


def mk(op, *args, ty=None):
    key = (op, args, ty)
    t = _TABLE.get(key)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.args = args
        t.ty = ty
        _SERIAL[0] += 1
        t.sid = _SERIAL[0]
        t._hash = hash(t.sid)
        s = 1
        for a in args:
            s += _size(a)
        t.size = s
        _TABLE[key] = t
    return t


def _size(a):
    if isinstance(a, T):
        return a.size
    if isinstance(a, tuple):
        return sum(_size(x) for x in a)
    return 0


# ---------------------------------------------------------------- constants
def K(v):
    """Constant."""
    if isinstance(v, tuple):
        return mk('tup', *[K(x) for x in v])
    if isinstance(v, Fraction):
        v = int(v) if v.denominator == 1 else float(v)
    return mk('k', type(v).__name__, v if not (isinstance(v, float) and v != v) else 'nan')


NONE = K(None)
TRUE = K(True)
FALSE = K(False)
ZERO = K(0)


def isk(t):
    return t.op == 'k'


def kv(t):
    return t.args[1]


def iskt(t, *types):
    return t.op == 'k' and t.args[0] in types


def isnum(t):
    return iskt(t, 'int', 'float', 'bool')


def top(reason):
    return mk('top', reason)


def has_top(t):
    seen = set()

    def go(x):
        if isinstance(x, tuple):
            return any(go(y) for y in x)
        if not isinstance(x, T):
            return False
        if x.op == 'top':
            return True
        if x in seen:
            return False
        seen.add(x)
        return any(go(y) for y in x.args)
    return go(t)


def find_tops(t, acc=None):
    acc = [] if acc is None else acc
    seen = set()

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, T):
            if x in seen:
                return
            seen.add(x)
            if x.op == 'top':
                acc.append(x.args[0])
            for y in x.args:
                go(y)
    go(t)
    return acc


# ---------------------------------------------------------------- polynomials
NUMTY = ('int', 'half', 'num', 'float')


def poly_of(t):
    """dict mono->coef for a numeric term; mono = sorted tuple of (atom, exp)"""
    if isnum(t):
        v = kv(t)
        if isinstance(v, str):
            return {((t, 1),): Fraction(1)}
        if isinstance(v, float) and (v in (float('inf'), float('-inf'))):
            return {((t, 1),): Fraction(1)}
        f = Fraction(v)
        return {(): f} if f else {}
    if t.op == 'poly':
        return dict(t.args[0])
    return {((t, 1),): Fraction(1)}


def _mono_ty(mono):
    tys = [a.ty if a.ty in NUMTY else ('int' if a.ty == 'bool' else 'num') for a, _ in mono]
    return tys


def poly_int(p):
    """Is the polynomial integer valued for every valuation?"""
    for mono, c in p.items():
        tys = _mono_ty(mono)
        if all(x == 'int' for x in tys):
            if c.denominator != 1:
                return False
        elif all(x in ('int', 'half') for x in tys):
            n = sum(e for (a, e), x in zip(mono, tys) if x == 'half')
            if (c / (2 ** n)).denominator != 1:
                return False
        else:
            return False
    return True


def poly_half(p):
    return poly_int({m: c * 2 for m, c in p.items()})


def from_poly(p, isfloat=False):
    p = {m: c for m, c in p.items() if c}
    if not p:
        return K(0.0) if isfloat else K(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            if isfloat or c.denominator != 1:
                return K(float(c))
            return K(int(c))
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    ty = 'int' if poly_int(p) else ('half' if poly_half(p) else 'num')
    items = tuple(sorted(p.items(), key=lambda mc: tuple((a.sid, e) for a, e in mc[0])))
    return mk('poly', items, ty=ty)


def _isf(*ts):
    return any(iskt(t, 'float') for t in ts)


def add(a, b):
    p = poly_of(a)
    for m, c in poly_of(b).items():
        p[m] = p.get(m, 0) + c
    return from_poly(p, _isf(a, b))


def scale(a, k):
    k = Fraction(k)
    return from_poly({m: c * k for m, c in poly_of(a).items()}, _isf(a))


def neg(a):
    return scale(a, -1)


def sub(a, b):
    p = poly_of(a)
    for m, c in poly_of(b).items():
        p[m] = p.get(m, 0) - c
    return from_poly(p, _isf(a, b))


def mul(a, b):
    pa, pb = poly_of(a), poly_of(b)
    if len(pa) * len(pb) > 400:
        return mk('mul', a, b, ty='num')
    r = {}
    for ma, ca in pa.items():
        for mb, cb in pb.items():
            d = {}
            for x, e in ma + mb:
                d[x] = d.get(x, 0) + e
            m = tuple(sorted(d.items(), key=lambda xe: xe[0].sid))
            r[m] = r.get(m, 0) + ca * cb
    return from_poly(r, _isf(a, b))


def div(a, b):
    if isnum(b) and kv(b) != 0:
        p = {m: c / Fraction(kv(b)) for m, c in poly_of(a).items()}
        return from_poly(p, True)
    return mk('/', a, b, ty='num')


def floor(a):
    p = poly_of(a)
    if poly_int(p):
        if isnum(a):
            return K(int(math.floor(kv(a))))
        return a
    if isnum(a):
        return K(int(math.floor(kv(a))))
    # pull out the integral part
    ip = {m: c for m, c in p.items() if poly_int({m: c})}
    fp = {m: c for m, c in p.items() if m not in ip}
    if () in fp:
        c = fp[()]
        w = Fraction(math.floor(c))
        if w:
            ip[()] = ip.get((), 0) + w
            fp[()] = c - w
            if not fp[()]:
                del fp[()]
    inner = from_poly(fp)
    r = mk('floor', inner, ty='int')
    return add(from_poly(ip), r) if ip else r


def floordiv(a, b):
    if isnum(a) and isnum(b) and kv(b) != 0:
        return K(kv(a) // kv(b))
    if isnum(b) and kv(b) != 0:
        return floor(div(a, b))
    return mk('//', a, b, ty='int' if a.ty == 'int' and b.ty == 'int' else 'num')


def mod(a, b):
    if isnum(a) and isnum(b) and kv(b) != 0:
        return K(kv(a) % kv(b))
    if iskt(b, 'int') and kv(b) > 0:
        if is_int(a):
            # reduce coefficients modulo b, canonical residue term
            p = {}
            for m, c in poly_of(a).items():
                if all(x == 'int' for x in _mono_ty(m)):
                    c = c % kv(b)
                if c:
                    p[m] = c
            red = from_poly(p)
            if isnum(red):
                return K(kv(red) % kv(b))
            return mk('mod', red, kv(b), ty='int')
        return sub(a, mul(b, floor(div(a, b))))
    return mk('%', a, b, ty='int' if is_int(a) and is_int(b) else 'num')


def is_int(t):
    if iskt(t, 'int', 'bool'):
        return True
    if iskt(t, 'float'):
        return False
    return t.ty in ('int', 'bool')


def is_numeric(t):
    return isnum(t) or t.op == 'poly' or t.ty in NUMTY or t.ty == 'bool'


def mixed(t):
    """a conditional whose alternatives may have different Python types"""
    if t.op != 'ite':
        return False
    if not is_numeric(t):
        return True
    a, b = t.args[1], t.args[2]

    def k(x):
        if is_bool(x):
            return 'bool'
        if is_int(x):
            return 'int'
        if x.ty == 'float' or iskt(x, 'float'):
            return 'float'
        return 'num'
    return mixed(a) or mixed(b) or k(a) != k(b)


def join_ty(a, b):
    if is_numeric(a) and is_numeric(b):
        if is_bool(a) and is_bool(b):
            return 'bool'
        return 'int' if is_int(a) and is_int(b) else 'num'
    return a.ty if a.ty == b.ty else None


def bitand(a, b):
    if iskt(a, 'int', 'bool') and iskt(b, 'int', 'bool'):
        return K(kv(a) & kv(b))
    if iskt(a, 'int'):
        a, b = b, a
    if iskt(b, 'int'):
        n = kv(b)
        if n == 0:
            return K(0)
        if n > 0 and (n & (n + 1)) == 0:
            return mod(a, K(n + 1)) if is_int(a) else mk('mod', a, n + 1, ty='int')
        return mk('&', a, b, ty='int')
    if b.sid < a.sid:
        a, b = b, a
    return mk('&', a, b, ty='int')


def bitor(a, b):
    if iskt(a, 'int', 'bool') and iskt(b, 'int', 'bool'):
        return K(kv(a) | kv(b))
    if is_bool(a) and is_bool(b):
        return or_(a, b)
    if b.sid < a.sid:
        a, b = b, a
    if iskt(a, 'int') and kv(a) == 0:
        return b
    return mk('|', a, b, ty='int')


def bitxor(a, b):
    if iskt(a, 'int', 'bool') and iskt(b, 'int', 'bool'):
        return K(kv(a) ^ kv(b))
    if b.sid < a.sid:
        a, b = b, a
    return mk('^', a, b, ty='int')


def shl(a, b):
    if iskt(b, 'int') and 0 <= kv(b) < 64:
        return mul(a, K(2 ** kv(b)))
    return mk('<<', a, b, ty='int')


def shr(a, b):
    if iskt(b, 'int') and 0 <= kv(b) < 64:
        return floordiv(a, K(2 ** kv(b)))
    return mk('>>', a, b, ty='int')


def power(a, b):
    if isnum(a) and isnum(b):
        try:
            return K(kv(a) ** kv(b))
        except Exception:
            return top('pow')
    if iskt(b, 'int') and 0 <= kv(b) <= 6:
        r = K(1)
        for _ in range(kv(b)):
            r = mul(r, a)
        return r
    return mk('**', a, b, ty='num')


def round_(a):
    if isnum(a):
        return K(round(kv(a)))
    if poly_int(poly_of(a)):
        return a
    return mk('round', a, ty='int')


# ---------------------------------------------------------------- booleans
def is_bool(t):
    return iskt(t, 'bool') or t.ty == 'bool'


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'le0':
        # not (p <= 0): for integers  p >= 1  <=>  1 - p <= 0
        p = a.args[0]
        if is_int(p):
            return le0(sub(K(1), p))
        return mk('not', a, ty='bool')
    if a.op == 'and':
        return or_(*[not_(x) for x in a.args])
    if a.op == 'or':
        return and_(*[not_(x) for x in a.args])
    if a.op == 'ite':
        return ite(a.args[0], not_(a.args[1]), not_(a.args[2]))
    return mk('not', a, ty='bool')


def and_(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == 'and':
            out.extend(x.args)
        else:
            out.append(x)
    s = sorted(set(out))
    ss = set(s)
    for x in s:
        if not_(x) in ss:
            return FALSE
    # absorption: x and (x or y) = x ; x and (not x or y) = x and y
    s2 = []
    for x in s:
        if x.op == 'or':
            if any(d in ss for d in x.args):
                continue
            ds = [d for d in x.args if not_(d) not in ss]
            if len(ds) != len(x.args):
                return and_(*([y for y in s if y is not x] + [or_(*ds)]))
        s2.append(x)
    # x==c1 and x==c2 (c1!=c2) contradiction; x==c and not x==d drop
    eqs = [x for x in s2 if x.op == 'eq0']
    if len(eqs) > 1:
        seen = {}
        for e in eqs:
            kpart, rest = split_const(e.args[0])
            if rest in seen and seen[rest] != kpart:
                return FALSE
            seen[rest] = kpart
    if eqs:
        seen = {}
        for e in eqs:
            kpart, rest = split_const(e.args[0])
            seen[rest] = kpart
        s3 = []
        for x in s2:
            if x.op == 'not' and x.args[0].op == 'eq0':
                kp, rest = split_const(x.args[0].args[0])
                if rest in seen and seen[rest] != kp:
                    continue
            s3.append(x)
        s2 = s3
    if not s2:
        return TRUE
    if len(s2) == 1:
        return s2[0]
    return mk('and', *s2, ty='bool')


def split_const(t):
    p = poly_of(t)
    c = p.pop((), Fraction(0))
    return c, from_poly(p)


def or_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            continue
        if x is TRUE:
            return TRUE
        if x.op == 'or':
            out.extend(x.args)
        else:
            out.append(x)
    s = sorted(set(out))
    ss = set(s)
    for x in s:
        if not_(x) in ss:
            return TRUE
    s2 = []
    for x in s:
        if x.op == 'and':
            if any(d in ss for d in x.args):
                continue
            ds = [d for d in x.args if not_(d) not in ss]
            if len(ds) != len(x.args):
                return or_(*([y for y in s if y is not x] + [and_(*ds)]))
        s2.append(x)
    if not s2:
        return FALSE
    if len(s2) == 1:
        return s2[0]
    return mk('or', *s2, ty='bool')


def le0(p):
    """p <= 0"""
    if isnum(p):
        return K(kv(p) <= 0)
    # normalise positive scaling
    pp = poly_of(p)
    lead = sorted([m for m in pp if m != ()], key=lambda m: tuple((a.sid, e) for a, e in m))
    g = abs(pp[lead[0]])
    if is_int(p):
        # divide by gcd of non constant coefs, floor constant
        from math import gcd
        gg = 0
        okc = True
        for m, c in pp.items():
            if m != ():
                if c.denominator != 1 or not poly_int({m: Fraction(1)}):
                    okc = False
                gg = gcd(gg, int(c))
        if okc and gg > 1:
            q = {m: c / gg for m, c in pp.items()}
            if () in q:
                # sum + c <= 0  with sum integer  <=> sum <= floor(-c)
                q[()] = -Fraction(math.floor(-q[()]))
            p = from_poly(q)
    else:
        if g != 1:
            p = from_poly({m: c / g for m, c in pp.items()})
    return mk('le0', p, ty='bool')


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    d = sub(a, b)
    if isnum(d):
        return K(kv(d) < 0)
    if is_int(d):
        return le0(add(d, K(1)))
    return not_(le0(neg(d)))


def eq0(p):
    if isnum(p):
        return K(kv(p) == 0)
    pp = poly_of(p)
    lead = sorted([m for m in pp if m != ()], key=lambda m: tuple((a.sid, e) for a, e in m))
    g = pp[lead[0]]
    if g != 1:
        p = from_poly({m: c / g for m, c in pp.items()})
        pp = poly_of(p)
    if len(pp) <= 2 and lead and len(lead) == 1 and pp[lead[0]] == 1 and len(lead[0]) == 1 and lead[0][0][1] == 1:
        a = lead[0][0][0]
        c = -pp.get((), Fraction(0))
        # residue atoms have bounded range
        if a.op == 'mod' and not (0 <= c < a.args[1] and c.denominator == 1):
            return FALSE
        if a.op == '&' and iskt(a.args[1], 'int') and kv(a.args[1]) > 0:
            m = kv(a.args[1])
            if c.denominator != 1 or not (0 <= c <= m) or (int(c) & ~m):
                return FALSE
            if m & (m - 1) == 0 and c == m:
                # (x & bit) == bit  <=> not (x & bit) == 0
                return not_(mk('eq0', a, ty='bool'))
        if a.ty in ('int', 'bool') and c.denominator != 1:
            return FALSE
    return mk('eq0', p, ty='bool')


def num_eq(a, b):
    d = sub(a, b)
    if d.ty == 'bool':
        return not_(d)
    return eq0(d)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    if a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if is_bool(a) and is_bool(b):
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    ty = None
    if a.ty == b.ty:
        ty = a.ty
    if is_numeric(a) and is_numeric(b):
        ty = 'int' if is_int(a) and is_int(b) else ('half' if poly_half(poly_of(a)) and poly_half(poly_of(b)) else 'num')
        if is_bool(a) and is_bool(b):
            ty = 'bool'
    elif a.op == 'ref' and b.op == 'ref':
        ty = None
    return mk('ite', c, a, b, ty=ty)


# ---------------------------------------------------------------- substitution
def subst(t, f, memo=None):
    """Rebuild t bottom-up; f(t) may return a replacement (before descending)."""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        r = f(x)
        if r is None:
            r = rebuild(x, go)
        memo[x] = r
        return r
    return go(t)


def rebuild(x, go):
    op = x.op
    if op in ('k', 'ref', 'sym'):
        return x
    if op == 'poly':
        acc = ZERO
        changed = False
        for mono, c in x.args[0]:
            term = from_poly({(): c})
            for a, e in mono:
                a2 = go(a)
                if a2 is not a:
                    changed = True
                for _ in range(e):
                    term = mul(term, a2)
            acc = add(acc, term)
        return acc if changed else x
    args = tuple(go(a) for a in x.args)
    if args == x.args:
        return x
    if op == 'and':
        return and_(*args)
    if op == 'or':
        return or_(*args)
    if op == 'not':
        return not_(args[0])
    if op == 'le0':
        return le0(args[0])
    if op == 'eq0':
        return eq0(args[0])
    if op == 'ite':
        return ite(*args)
    if op == 'floor':
        return floor(args[0])
    if op == 'mod':
        return mod(args[0], K(args[1]))
    if op == '&':
        return bitand(*args)
    if op == 'round':
        return round_(args[0])
    if op == '//':
        return floordiv(*args)
    if op == '/':
        return div(*args)
    return mk(op, *args, ty=x.ty)


def assume(t, facts):
    """Simplify t given literal facts: dict atom -> TRUE/FALSE."""
    if not facts:
        return t

    def f(x):
        if x.ty == 'bool' and x.op not in ('k',):
            d = decide(x, facts)
            if d is not None:
                return K(d)
        return None
    return subst(t, f)


def decide(c, facts):
    """Truth value of cond under a set of facts (literals), or None."""
    if c is TRUE:
        return True
    if c is FALSE:
        return False
    if c in facts:
        return True
    n = not_(c)
    if n in facts:
        return False
    if c.op == 'not':
        d = decide(c.args[0], facts)
        return None if d is None else not d
    if c.op == 'and':
        ds = [decide(x, facts) for x in c.args]
        if any(d is False for d in ds):
            return False
        if all(d is True for d in ds):
            return True
        return None
    if c.op == 'or':
        ds = [decide(x, facts) for x in c.args]
        if any(d is True for d in ds):
            return True
        if all(d is False for d in ds):
            return False
        return None
    if c.op == 'eq0':
        kp, rest = split_const(c.args[0])
        for f in facts:
            if f.op == 'eq0':
                k2, r2 = split_const(f.args[0])
                if r2 is rest and k2 != kp:
                    return False
            elif f.op == 'le0':
                k2, r2 = split_const(f.args[0])
                # f: r2 + k2 <= 0 ; c: rest + kp == 0 -> rest = -kp
                if r2 is rest and -kp + k2 > 0:
                    return False
                if r2 is neg(rest) and kp + k2 > 0:
                    return False
    if c.op == 'le0':
        kp, rest = split_const(c.args[0])
        for f in facts:
            if f.op == 'le0':
                k2, r2 = split_const(f.args[0])
                if r2 is rest and k2 >= kp:
                    return True
                if r2 is neg(rest):
                    # f: -rest + k2 <= 0 -> rest >= k2 ; c false when k2 + kp > 0
                    if k2 + kp > 0:
                        return False
            elif f.op == 'eq0':
                k2, r2 = split_const(f.args[0])
                if r2 is rest:
                    return (-k2 + kp) <= 0
                if r2 is neg(rest):
                    return (k2 + kp) <= 0
    if c.op == 'isinst' and len(c.args) == 2:
        for f in facts:
            if f.op == 'isinst' and f.args[0] is c.args[0] and f.args[1] != c.args[1] and disjoint_types(f.args[1], c.args[1]):
                return False
    return None


def disjoint_types(a, b):
    prim = {'int', 'float', 'str', 'bytes', 'list', 'tuple', 'dict', 'NoneType'}
    if a in prim and b in prim:
        return True
    return (a in prim) != (b in prim) and not (a.startswith('?') or b.startswith('?'))


def facts_with(facts, c, val=True):
    """facts + literal(s) implied by c being val"""
    if not val:
        c = not_(c)
    out = set(facts)
    stack = [c]
    while stack:
        x = stack.pop()
        if x.op == 'and':
            stack.extend(x.args)
        else:
            out.add(x)
    return frozenset(out)


# ---------------------------------------------------------------- printing
def show(t, depth=6):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return '…'
    d = depth - 1
    if t.op == 'k':
        return repr(t.args[1])
    if t.op == 'poly':
        parts = []
        for m, c in t.args[0]:
            ms = '*'.join(show(a, d) + ('' if e == 1 else '^%d' % e) for a, e in m)
            if not ms:
                parts.append(str(c))
            elif c == 1:
                parts.append(ms)
            else:
                parts.append('%s*%s' % (c, ms))
        return '(' + ' + '.join(parts) + ')'
    if t.op == 'sym':
        return t.args[0]
    if t.op == 'attr':
        return '%s.%s' % (show(t.args[0], d), t.args[1])
    if t.op == 'le0':
        return '%s <= 0' % show(t.args[0], d)
    if t.op == 'eq0':
        return '%s == 0' % show(t.args[0], d)
    if t.op in ('and', 'or'):
        return '(' + (' %s ' % t.op).join(show(a, d) for a in t.args) + ')'
    if t.op == 'not':
        return 'not(%s)' % show(t.args[0], d)
    if t.op == 'ite':
        return '(%s if %s else %s)' % (show(t.args[1], d), show(t.args[0], d), show(t.args[2], d))
    if t.op == 'tup':
        return '(' + ', '.join(show(a, d) for a in t.args) + ')'
    if t.op == 'obj':
        return '%s{%s}' % (t.args[0], ', '.join('%s=%s' % (k, show(v, d)) for k, v in t.args[1]))
    return '%s(%s)' % (t.op, ', '.join(show(a, d) for a in t.args))
