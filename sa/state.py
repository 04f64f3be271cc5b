"""Abstract heap, effects and joins."""
from collections import namedtuple
from .terms import *

_OID = [0]


def new_oid():
    _OID[0] += 1
    return _OID[0]


def Ref(oid):
    return mk('ref', oid)


class E(namedtuple('E', 'kind data loc')):
    """An effect.  loc is diagnostic only."""
    __slots__ = ()

    def key(self):
        return (self.kind, self.data)

    def __eq__(self, o):
        return isinstance(o, E) and self.kind == o.kind and self.data == o.data

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.kind)


class Inst:
    """instance of a repository class (or the frame of a function, or a class/module namespace)"""
    __slots__ = ('cls', 'fields', 'tag', 'where')

    def __init__(self, cls, fields=None, tag=None, where=None):
        self.cls = cls
        self.fields = fields or {}
        self.tag = tag
        self.where = where

    def put(self, k, v):
        f = dict(self.fields)
        f[k] = v
        return Inst(self.cls, f, self.tag, self.where)

    def drop(self, k):
        f = dict(self.fields)
        f.pop(k, None)
        return Inst(self.cls, f, self.tag, self.where)


ORDER = [None]      # order of the elements of sets, for comparing runs under several orders


class Seq:
    """list / set / generator result: structured content.

    pieces: tuple of  ('i', value) | ('rep', Loop, pieces) | ('if', cond, pieces, pieces) | ('sp', term)
    """
    __slots__ = ('kind', 'pieces', 'tag', 'where')

    def __init__(self, kind, pieces=(), tag=None, where=None):
        self.kind = kind
        self.pieces = tuple(pieces)
        if kind == 'set' and ORDER[0] is not None:
            self.pieces = ORDER[0](self.pieces)
        self.tag = tag
        self.where = where

    def with_(self, pieces):
        return Seq(self.kind, pieces, self.tag, self.where)


class Dic:
    """dict: pieces of ('i', (key,val)) ... with the same structure as Seq; ('sp', term) unknown base."""
    __slots__ = ('pieces', 'tag', 'where', 'default', 'inst')

    def __init__(self, pieces=(), tag=None, where=None, default=None, inst=None):
        self.pieces = tuple(pieces)
        self.tag = tag
        self.where = where
        self.default = default
        self.inst = inst    # the object whose __dict__ this is

    def with_(self, pieces):
        return Dic(pieces, self.tag, self.where, self.default, self.inst)


class Frame:
    __slots__ = ('vars', 'parent', 'fn', 'glob', 'globals_', 'nonlocals')

    def __init__(self, vars, parent, fn, glob, globals_=frozenset(), nonlocals=frozenset()):
        self.vars = vars
        self.parent = parent
        self.fn = fn
        self.glob = glob
        self.globals_ = globals_
        self.nonlocals = nonlocals

    def put(self, k, v):
        d = dict(self.vars)
        d[k] = v
        return Frame(d, self.parent, self.fn, self.glob, self.globals_, self.nonlocals)

    def drop(self, k):
        d = dict(self.vars)
        d.pop(k, None)
        return Frame(d, self.parent, self.fn, self.glob, self.globals_, self.nonlocals)


class Loop:
    """a summarised loop"""
    __slots__ = ('lid', 'kind', 'count', 'cond', 'exits', 'carried', 'origin')

    def __init__(self, lid, kind, count=None, cond=None):
        self.lid = lid
        self.kind = kind      # 'for' | 'while'
        self.count = count    # term for 'for'
        self.cond = cond
        self.exits = ()
        self.carried = {}
        self.origin = None

    def idx(self):
        return mk('idx', self.lid, ty='int')

    def __repr__(self):
        return 'Loop%d<%s %s>' % (self.lid, self.kind, self.count if self.kind == 'for' else self.cond)


class State:
    __slots__ = ('base', 'over', 'eff', 'pc', 'dead')

    def __init__(self, base, over=None, eff=None, pc=frozenset(), dead=None):
        self.base = base
        self.over = over if over is not None else {}
        self.eff = eff if eff is not None else []
        self.pc = pc
        self.dead = dead

    def clone(self):
        return State(self.base, dict(self.over), list(self.eff), self.pc, self.dead)

    def get(self, oid):
        o = self.over.get(oid)
        if o is None:
            o = self.base.get(oid)
        return o

    def set(self, oid, obj):
        self.over[oid] = obj

    def alloc(self, obj):
        oid = new_oid()
        self.over[oid] = obj
        return Ref(oid)

    def obj(self, t):
        if t.op == 'ref':
            return self.get(t.args[0])
        return None

    def emit(self, kind, data, loc):
        self.eff.append(E(kind, data, loc))

    def become(self, o):
        self.over = o.over
        self.eff = o.eff
        self.pc = o.pc
        self.dead = o.dead


ABSENT = mk('absent')
# hook: initial value of a not-yet-touched field of a symbolic object
LAZY = [None]


def pieces_key(p):
    return p


def merge_pieces(c, a, b):
    """join of two structured contents"""
    if a == b:
        return a
    n = 0
    while n < len(a) and n < len(b) and a[n] == b[n]:
        n += 1
    pre, ra, rb = a[:n], a[n:], b[n:]
    m = 0
    while m < len(ra) and m < len(rb) and ra[-1 - m] == rb[-1 - m] and not (ra[-1 - m][0] == 'i'):
        m += 1
    suf = ra[len(ra) - m:] if m else ()
    if m:
        ra, rb = ra[:len(ra) - m], rb[:len(rb) - m]
    if len(ra) == len(rb) and all(x[0] == 'i' for x in ra + rb):
        mid = tuple(('i', merge_val(c, x[1], y[1])) for x, y in zip(ra, rb))
    else:
        mid = (('if', c, ra, rb),)
    return pre + mid + suf


def merge_val(c, x, y):
    if x is y:
        return x
    if isinstance(x, tuple) and isinstance(y, tuple):   # dict entry
        if x[0] is y[0]:
            return (x[0], ite(c, x[1], y[1]))
        return (ite(c, x[0], y[0]), ite(c, x[1], y[1]))
    if PHI[0] is not None and PHI[1] and (x in PHI[1] or y in PHI[1]) and is_numeric(x) and is_numeric(y):
        return PHI[0](c, x, y)
    r = ite(c, x, y)
    if r.size > 4000:
        return top('join too large')
    return r


# hook: [function making a join symbol, values which are stream positions at the end of the joined branches, joins made]
PHI = [None, (), {}]


def stream_ends(effs):
    """stream positions at the end of a list of effects"""
    for e in reversed(effs):
        k = e.kind
        if k == 'read':
            h = e.data[1][2]
            return {h} if h is not None else set()
        if k == 'join':
            return {e.data[0]}
        if k == 'loop':
            if has_reads(e.data[1]):
                return {c[4] for c in e.data[2] if c[4] is not None} | {c[1] for c in e.data[2] if c[1] is not None}
        if k == 'rec':
            return set(e.data[3]) if len(e.data) > 3 else set()
    return set()


def has_reads(effs):
    for e in effs:
        if e.kind in ('read', 'join', 'rec'):
            return True
        if e.kind == 'if' and (has_reads(e.data[1]) or has_reads(e.data[2])):
            return True
        if e.kind == 'loop' and has_reads(e.data[1]):
            return True
    return False


def merge_dict_pieces(c, a, b):
    """joins of dict contents when all keys are constants: merge by key"""
    def flat(p):
        return all(x[0] == 'i' and x[1][0].op in ('k', 'tup', 'enumm') for x in p)
    if a == b:
        return a
    if flat(a) and flat(b):
        da = {x[1][0]: x[1][1] for x in a}
        db = {x[1][0]: x[1][1] for x in b}
        if [k for k in da] == [k for k in db]:
            return tuple(('i', (k, ite(c, da[k], db[k]))) for k in da)
    return merge_pieces(c, a, b)


def merge_obj(c, a, b):
    if a is b:
        return a
    if isinstance(a, Inst) and isinstance(b, Inst):
        keys = list(a.fields) + [k for k in b.fields if k not in a.fields]
        f = {}
        for k in keys:
            x = a.fields.get(k)
            y = b.fields.get(k)
            if x is None or y is None:
                z = LAZY[0](a, k) if a.tag is not None and LAZY[0] else ABSENT
                f[k] = ite(c, x if x is not None else z, y if y is not None else z)
            else:
                f[k] = merge_val(c, x, y)
        return Inst(a.cls, f, a.tag, a.where)
    if isinstance(a, Frame) and isinstance(b, Frame):
        keys = list(a.vars) + [k for k in b.vars if k not in a.vars]
        f = {}
        for k in keys:
            x = a.vars.get(k, ABSENT)
            y = b.vars.get(k, ABSENT)
            f[k] = merge_val(c, x, y)
        return Frame(f, a.parent, a.fn, a.glob, a.globals_ | b.globals_, a.nonlocals | b.nonlocals)
    if isinstance(a, Seq) and isinstance(b, Seq):
        return a.with_(merge_pieces(c, a.pieces, b.pieces))
    if isinstance(a, Dic) and isinstance(b, Dic):
        return a.with_(merge_dict_pieces(c, a.pieces, b.pieces))
    return a


def merge_eff(c, a, b):
    n = 0
    while n < len(a) and n < len(b) and (a[n] is b[n] or a[n] == b[n]):
        n += 1
    ra, rb = a[n:], b[n:]
    if not ra and not rb:
        return a[:n]
    m = 0
    while m < len(ra) and m < len(rb) and ra[-1 - m] == rb[-1 - m]:
        m += 1
    suf = ra[len(ra) - m:] if m else []
    if m:
        ra, rb = ra[:len(ra) - m], rb[:len(rb) - m]
    mid = []
    if ra or rb:
        mid = mk_if(c, ra, rb)
    return a[:n] + mid + suf


def mk_if(c, ra, rb):
    if c is TRUE:
        return list(ra)
    if c is FALSE:
        return list(rb)
    if c.op == 'not':
        c, ra, rb = c.args[0], rb, ra
    loc = ra[0].loc if ra else (rb[0].loc if rb else None)
    return [E('if', (c, tuple(ra), tuple(rb)), loc)]


def merge_state(c, A, B):
    """join A (c true) and B (c false)"""
    if A.dead and not B.dead:
        S = B.clone()
        S.eff = merge_eff(c, A.eff, B.eff)
        S.pc = facts_with(S.pc, c, False)
        return S
    if B.dead and not A.dead:
        S = A.clone()
        S.eff = merge_eff(c, A.eff, B.eff)
        S.pc = facts_with(S.pc, c, True)
        return S
    if PHI[0] is not None:
        n = 0
        while n < len(A.eff) and n < len(B.eff) and A.eff[n] is B.eff[n]:
            n += 1
        PHI[1] = stream_ends(A.eff[n:]) | stream_ends(B.eff[n:])
        PHI[2] = {}
        S = merge_state0(c, A, B)
        if PHI[2]:
            S.eff = S.eff + [E('join', k, None) for k in PHI[2].values()]
        PHI[1], PHI[2] = (), {}
        return S
    return merge_state0(c, A, B)


def merge_state0(c, A, B):
    over = {}
    for oid in A.over:
        a = A.over[oid]
        b = B.over.get(oid)
        if b is None:
            if oid in A.base:
                over[oid] = merge_obj(c, a, A.base[oid])
            else:
                over[oid] = a
        else:
            over[oid] = merge_obj(c, a, b)
    for oid in B.over:
        if oid not in over:
            b = B.over[oid]
            over[oid] = merge_obj(c, B.base[oid], b) if oid in B.base else b
    return State(A.base, over, merge_eff(c, A.eff, B.eff), A.pc & B.pc, A.dead and B.dead)
