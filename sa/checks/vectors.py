"""Positions: arithmetic, units, rotation, equality and order."""
from .common import *
from .. import evalt
from ..eqv import judge

V = 'redeclipse.vector:'
O = 'redeclipse.vector.orientations:'
LOC = 'redeclipse/vector/__init__.py'
AX = 'xyz'
UNIT = {'FineVector': 1, 'CoarseVector': 8}


class Env:
    def __init__(self, ctx):
        self.ctx = ctx
        self.I = engine(ctx, {}, ('redeclipse', 'redeclipse.vector', 'redeclipse.vector.orientations', 'redeclipse.vector.re'))
        self.st = self.I.state()

    def cls(self, c):
        return self.I.lookup(V + c)

    def vec(self, c, n, ty='half'):
        return self.I.call(self.cls(c), [self.I.sym(n + k, ty) for k in AX], {}, self.st, None)

    def syms(self, n, ty='half'):
        return [self.I.sym(n + k, ty) for k in AX]

    def const(self, n):
        return self.I.lookup(O + n)

    def fn_loc(self, v):
        f, _ = v, None
        while f is not None and f.op == 'bm':
            f = f.args[1]
        return getattr(f.args[0], 'loc', LOC) if f is not None and f.args else LOC

    def m(self, o, name, *a, **k):
        """method call; a failing call is a violation"""
        f = self.I.getattr_(o, name, self.st, None)
        st = self.st
        r = self.I.call(f, list(a), k, st, None)
        if st.dead:
            d = st.dead
            self.st = self.I.state()
            return mk('raised', d if isinstance(d, (T, str)) else str(d)[:80])
        return r

    def comps(self, v):
        if v.op == 'raised':
            return None
        return [self.I.getattr_(v, k, self.st, None, quiet=True) for k in AX]


def expect_vec(e, key, loc, got, cls, want, what):
    ctx = e.ctx
    if got.op == 'raised':
        ctx.violation(key, loc, '%s fails: %s' % (what, show(got)[:120]))
        return
    o = e.st.obj(got)
    if o is None or getattr(o, 'cls', None) is None:
        if got.op == 'ite':
            return judge(ctx, key, loc, e.I.freeze(got, e.st), vecterm(e, cls, want), what, ignore=())
        ctx.undecided(key, loc, '%s: result %s' % (what, show(got)[:120]))
        return
    if cls is not None:
        ctx.require(o.cls.name == cls, key + '/kind', loc, '%s yields a %s instead of a %s' % (what, o.cls.name, cls))
    for ax, g, w in zip(AX, e.comps(got), want):
        if g is None:
            ctx.violation(key + '.' + ax, loc, '%s has no component %s' % (what, ax))
        else:
            judge(ctx, '%s.%s' % (key, ax), loc, g, w, '%s, component %s' % (what, ax))


def vecterm(e, cls, want):
    return mk('obj', V + cls if ':' in V else cls, tuple(zip(AX, want)), ty=('obj', V + cls))


def unchanged(e, key, v, n, what, ty='half'):
    for ax, g, w in zip(AX, e.comps(v), e.syms(n, ty)):
        if g is not w:
            e.ctx.violation(key, LOC, '%s changes its operand' % what)
            return
    e.ctx.ok(key)


def loc_of(e, o, name):
    f = e.I.getattr_(o, name, e.st, None, quiet=True)
    try:
        return f.args[1].args[0].loc
    except Exception:
        return LOC


def arithmetic(ctx):
    ctx.rule('every operation is evaluated on symbolic components; the value number of each component of the result must equal the specified '
             'polynomial (one coarse unit = 8 fine units), the class of the result and the unchanged operands are checked as well')
    ctx.assumption('components are whole or half numbers; divisors are not zero')

    def go():
        e = Env(ctx)
        I = e.I
        for ca in UNIT:
            for cb in UNIT:
                a, b = e.vec(ca, 'a'), e.vec(cb, 'b')
                A, B = e.syms('a'), e.syms('b')
                res = 'CoarseVector' if ca == cb == 'CoarseVector' else 'FineVector'
                ua, ub = (1, 1) if ca == cb else (UNIT[ca], UNIT[cb])
                for name, sg in (('__add__', 1), ('__sub__', -1)):
                    loc = loc_of(e, a, name)
                    got = e.m(a, name, b)
                    what = '%s %s %s' % (ca, '+' if sg == 1 else '-', cb)
                    expect_vec(e, what, loc, got, res, [add(scale(x, ua), scale(y, sg * ub)) for x, y in zip(A, B)], what)
                    unchanged(e, what + '/left', a, 'a', what)
                    unchanged(e, what + '/right', b, 'b', what)
            a = e.vec(ca, 'a')
            A = e.syms('a')
            for ty in ('int', 'num'):
                m = I.sym('m' + ty, ty)
                expect_vec(e, '%s * %s' % (ca, ty), loc_of(e, a, '__mul__'), e.m(a, '__mul__', m), ca, [mul(x, m) for x in A], '%s * number' % ca)
                expect_vec(e, '%s / %s' % (ca, ty), loc_of(e, a, '__truediv__'), e.m(a, '__truediv__', m), ca, [div(x, m) for x in A], '%s / number' % ca)
            for k in (1, 2, 3, 4, 8, -3):
                expect_vec(e, '%s * %d' % (ca, k), loc_of(e, a, '__mul__'), e.m(a, '__mul__', K(k)), ca, [scale(x, k) for x in A], '%s * %d' % (ca, k))
                expect_vec(e, '%s / %d' % (ca, k), loc_of(e, a, '__truediv__'), e.m(a, '__truediv__', K(k)), ca, [div(x, K(k)) for x in A], '%s / %d' % (ca, k))
                expect_vec(e, '%s // %d' % (ca, k), loc_of(e, a, '__floordiv__'), e.m(a, '__floordiv__', K(k)), ca,
                           [floor(div(x, K(k))) for x in A], '%s // %d' % (ca, k))
            expect_vec(e, ca + '.vox', loc_of(e, a, 'vox'), e.m(a, 'vox'), ca, [floor(x) for x in A], '%s.vox()' % ca)
            expect_vec(e, ca + '.fine', loc_of(e, a, 'fine'), e.m(a, 'fine'), 'FineVector', [scale(x, UNIT[ca]) for x in A], '%s.fine()' % ca)
            expect_vec(e, ca + '.entity', loc_of(e, a, 'entity'), e.m(a, 'entity'), 'FineVector', [scale(x, 4 * UNIT[ca]) for x in A], '%s.entity()' % ca)
            unchanged(e, ca + '/unchanged', a, 'a', 'an operation on %s' % ca)
            # as a sequence
            sq = I.call(I.lookup(V + ca), list(A), {}, e.st, None)
            for i, x in enumerate(A):
                judge(ctx, '%s[%d]' % (ca, i), LOC, e.m(sq, '__getitem__', K(i)), x, '%s component %d' % (ca, i))
            judge(ctx, 'len(%s)' % ca, LOC, e.m(sq, '__len__'), K(3), 'length of %s' % ca)
            it = I.freeze(e.m(sq, '__iter__'), e.st)
            if it.op == 'seq':
                judge(ctx, 'iter(%s)' % ca, LOC, it, mk('seq', it.args[0], tuple(('i', x) for x in A)), 'components of %s in order' % ca)
            else:
                ctx.undecided('iter(%s)' % ca, LOC, show(it)[:100])
        a = e.vec('FineVector', 'a')
        expect_vec(e, 'FineVector.coarse', loc_of(e, a, 'coarse'), e.m(a, 'coarse'), 'CoarseVector', [floor(div(x, K(8))) for x in e.syms('a')], 'FineVector.coarse()')
        b = e.vec('CoarseVector', 'b', 'int')
        bf = e.m(b, 'fine')
        if bf.op != 'raised':
            expect_vec(e, 'coarse(fine)', LOC, e.m(bf, 'coarse'), 'CoarseVector', e.syms('b', 'int'), 'CoarseVector.fine().coarse()')
        # BaseVector keeps to its own class
        a, b = e.vec('BaseVector', 'a'), e.vec('BaseVector', 'b')
        expect_vec(e, 'BaseVector + BaseVector', loc_of(e, a, '__add__'), e.m(a, '__add__', b), 'BaseVector', [add(x, y) for x, y in zip(e.syms('a'), e.syms('b'))], 'BaseVector + BaseVector')
        expect_vec(e, 'BaseVector - BaseVector', loc_of(e, a, '__sub__'), e.m(a, '__sub__', b), 'BaseVector', [sub(x, y) for x, y in zip(e.syms('a'), e.syms('b'))], 'BaseVector - BaseVector')
        return I
    return guarded(ctx, 'arithmetic', go)


TURN = {0: lambda x, y: (x, y), 1: lambda x, y: (neg(y), x), 2: lambda x, y: (neg(x), neg(y)), 3: lambda x, y: (y, neg(x))}
DIRS = {'EAST': (1, 0, 0), 'NORTH': (0, 1, 0), 'WEST': (-1, 0, 0), 'SOUTH': (0, -1, 0), 'ABOVE': (0, 0, 1), 'BELOW': (0, 0, -1), 'SELF': (0, 0, 0),
        'NORTHEAST': (1, 1, 0), 'NORTHWEST': (-1, 1, 0), 'SOUTHEAST': (1, -1, 0), 'SOUTHWEST': (-1, -1, 0)}
COMPASS = ('EAST', 'NORTH', 'WEST', 'SOUTH')


def rotation(ctx):
    ctx.rule('rotation is evaluated on symbolic whole and half components for every quarter turn, given as degrees or as a compass direction; each '
             'component must have the value number of the exact quarter turn')
    ctx.assumption('cosine and sine of a multiple of 90 degrees are within 2^-52 of their exact values, so rounding doubled components is exact below 2^50')

    def go():
        e = Env(ctx)
        I = e.I
        for c in ('FineVector', 'CoarseVector', 'BaseVector'):
            a = e.vec(c, 'a')
            x, y, z = e.syms('a')
            loc = loc_of(e, a, 'rotate')
            for deg in (0, 90, 180, 270, 360, 450, -90, -180, -270):
                r = TURN[(deg // 90) % 4](x, y)
                expect_vec(e, '%s.rotate(%d)' % (c, deg), loc, e.m(a, 'rotate', K(deg)), c, [r[0], r[1], z], '%s rotated by %d degrees' % (c, deg))
            for k, n in enumerate(COMPASS):
                r = TURN[k](x, y)
                expect_vec(e, '%s.rotate(%s)' % (c, n), loc, e.m(a, 'rotate', e.const(n)), c, [r[0], r[1], z], '%s rotated to %s' % (c, n))
            unchanged(e, c + '/unchanged', a, 'a', 'rotating')
        for ca, cb in (('FineVector', 'FineVector'), ('CoarseVector', 'CoarseVector'), ('CoarseVector', 'FineVector'), ('FineVector', 'CoarseVector')):
            a, b = e.vec(ca, 'a'), e.vec(cb, 'b')
            A, B = e.syms('a'), e.syms('b')
            res = 'CoarseVector' if ca == cb == 'CoarseVector' else 'FineVector'
            ua, ub = (1, 1) if ca == cb else (UNIT[ca], UNIT[cb])
            A, B = [scale(v, ua) for v in A], [scale(v, ub) for v in B]
            loc = loc_of(e, a, 'offset_rotate')
            for k, (deg, n) in enumerate(zip((0, 90, 180, 270), COMPASS)):
                r = TURN[k](add(A[0], B[0]), add(A[1], B[1]))
                want = [sub(r[0], B[0]), sub(r[1], B[1]), A[2]]
                for d, dn in ((K(deg), str(deg)), (e.const(n), n)):
                    key = '%s.offset_rotate(%s, %s)' % (ca, dn, cb)
                    expect_vec(e, key, loc, e.m(a, 'offset_rotate', d, offset=b), res, want, '%s rotated by %s about a %s' % (ca, dn, cb))
        oloc = 'redeclipse/vector/orientations.py'
        for n, v in sorted(DIRS.items()):
            expect_vec(e, n, oloc, e.const(n), 'CoarseVector', [K(k) for k in v], 'direction %s' % n)
            f = I.lookup(O + n + '_FINE') if n in ('EAST', 'NORTH', 'WEST', 'SOUTH', 'ABOVE', 'BELOW') else None
            if f is not None:
                expect_vec(e, n + '_FINE', oloc, f, 'FineVector', [K(k) for k in v], 'direction %s_FINE' % n)
        for n, v in (('TILE_CENTER', (4, 4, 0)), ('HALF_HEIGHT', (0, 0, 4))):
            expect_vec(e, n, oloc, e.const(n), 'FineVector', [K(k) for k in v], n)
        card = e.const('CARDINALS')
        o = e.st.obj(card)
        names = []
        if o is not None and hasattr(o, 'pieces') and all(p[0] == 'i' for p in o.pieces):
            for p in o.pieces:
                cs = e.comps(p[1])
                names.append(tuple(kv(q) for q in cs) if all(isnum(q) for q in cs) else None)
            ctx.require(sorted(n for n in names if n) == sorted(DIRS[n] for n in COMPASS) and len(names) == 4, 'CARDINALS', oloc, 'the compass directions are %s' % (names,))
        else:
            ctx.undecided('CARDINALS', oloc, 'not a plain list')
        ry, gr = I.lookup(O + 'rotate_yaw'), I.lookup(O + 'get_vector_rotation')
        for k, n in enumerate(COMPASS):
            ang = I.sym('angle', 'int')
            judge(ctx, 'rotate_yaw(%s)' % n, ry.args[0].loc, I.call(ry, [ang, e.const(n)], {}, e.st, None), mod(add(ang, K(90 * k)), K(360)), 'yaw turned to %s' % n)
            g = I.call(gr, [e.const(n)], {}, e.st, None)
            judge(ctx, 'get_vector_rotation(%s)' % n, gr.args[0].loc, mod(g, K(360)), K(90 * k), 'degrees of %s (modulo 360)' % n)
        return I
    return guarded(ctx, 'rotation', go)


def truth(t, env):
    return bool(evalt.ev(t, env))


def order(ctx):
    ctx.rule('equality, order and hash are evaluated on symbolic components; as they only compare components, every relative order of components is '
             'covered by a finite table, over which equivalence, trichotomy, transitivity and equal-implies-equal-hash are decided')

    def go():
        e = Env(ctx)
        I = e.I
        for ca in UNIT:
            for cb in UNIT:
                a, b = e.vec(ca, 'a'), e.vec(cb, 'b')
                A, B = e.syms('a'), e.syms('b')
                loc = loc_of(e, a, '__eq__')
                want = and_(*[num_eq(scale(x, UNIT[ca]), scale(y, UNIT[cb])) for x, y in zip(A, B)])
                if ca == cb:
                    want = and_(*[num_eq(x, y) for x, y in zip(A, B)])
                judge(ctx, '%s == %s' % (ca, cb), loc, e.m(a, '__eq__', b), want, '%s == %s' % (ca, cb))
                # equal positions have equal hashes
                h1 = e.m(a, '__hash__')
                sub_b = I.call(e.cls(cb), [div(scale(x, UNIT[ca]), K(UNIT[cb])) for x in A], {}, e.st, None)
                h2 = e.m(sub_b, '__hash__')
                key = 'hash:%s/%s' % (ca, cb)
                if 'raised' in (h1.op, h2.op):
                    ctx.violation(key, loc, 'hashing fails')
                else:
                    judge(ctx, key, loc_of(e, a, '__hash__'), h2, h1, 'hash of a %s and of the equal %s' % (ca, cb))
            a = e.vec(ca, 'a')
            for v in (NONE, K(5), K('x'), K((1, 2, 3))):
                r = e.m(a, '__eq__', v)
                ctx.require(r is FALSE or r.op == 'ext' or has_top(r), '%s == %s' % (ca, show(v)), loc_of(e, a, '__eq__'), 'a %s compared with %s is %s' % (ca, show(v), show(r)[:60]))
            b, c = e.vec(ca, 'b'), e.vec(ca, 'c')
            loc = loc_of(e, a, '__lt__')
            lt_ab, lt_ba, lt_bc, lt_ac = e.m(a, '__lt__', b), e.m(b, '__lt__', a), e.m(b, '__lt__', c), e.m(a, '__lt__', c)
            le_ab, eq_ab = e.m(a, '__le__', b), e.m(a, '__eq__', b)
            key = 'order ' + ca
            terms = (lt_ab, lt_ba, lt_bc, lt_ac, le_ab, eq_ab)
            if any(t.op == 'raised' for t in terms):
                ctx.violation(key, loc, 'comparing fails')
                continue
            if any(has_top(t) for t in terms):
                ctx.undecided(key, loc, 'comparison not analysable')
                continue
            dom = (0, 1, 2)
            import itertools
            A, B, Cc = e.syms('a'), e.syms('b'), e.syms('c')
            bad = None
            n = 0
            try:
                for vs in itertools.product(dom, repeat=6):
                    env = dict(zip(A + B, vs))
                    l, g, q, le_ = truth(lt_ab, env), truth(lt_ba, env), truth(eq_ab, env), truth(le_ab, env)
                    n += 1
                    if l + g + q != 1:
                        bad = bad or '%s and %s are %s' % (vs[:3], vs[3:], 'unordered' if l + g + q == 0 else 'ordered both ways')
                    if le_ != (l or q):
                        bad = bad or '<= disagrees with < and == for %s and %s' % (vs[:3], vs[3:])
                for vs in itertools.product((0, 1, 2), repeat=9):
                    env = dict(zip(A + B + Cc, vs))
                    if truth(lt_ab, env) and truth(lt_bc, env) and not truth(lt_ac, env):
                        bad = bad or 'not transitive: %s < %s < %s' % (vs[:3], vs[3:6], vs[6:])
                    n += 1
            except evalt.Unknown as x:
                ctx.undecided(key, loc, 'comparison uses %s' % x)
                continue
            ctx.stat('orderings_decided', n)
            ctx.require(bad is None, key, loc, 'the order of %ss is not a total order: %s' % (ca, bad))
        return I
    return guarded(ctx, 'order', go)


R = 'redeclipse.vector.re:'
RLOC = 'redeclipse/vector/re.py'
RE = {'ivec2': ('xy', int), 'vec2': ('xy', float), 'ivec3': ('xyz', int), 'vec3': ('xyz', float)}
MIXED = (0, 1, -1, 7, -8, 2.5, -2.5, 0.75, -0.75, 2047.96875, 65535)


def engine_vectors(ctx):
    ctx.rule('every operation of the vectors of the game engine is evaluated on symbolic whole components; the value number of each component must equal the specified polynomial; '
             'truncation, masks and tests for zero are evaluated on chosen numbers, the choice of a component or corner for every index')
    ctx.assumption('components of operands of the arithmetic are whole numbers')

    def go():
        e = Env(ctx)
        I = e.I

        def new(c, xs):
            return I.call(I.lookup(R + c), list(xs), {}, e.st, None)

        def syms(n):
            return [I.sym(n + k, 'int') for k in AX]

        def comp(v, ax):
            return I.getattr_(v, ax, e.st, None, quiet=True)

        def have(key, got, cls, want, what):
            o = e.st.obj(got) if got.op != 'raised' else None
            if got.op == 'raised' or (o is None and got.op == 'k'):
                return ctx.violation(key, RLOC, '%s %s' % (what, 'fails: %s' % show(got)[:100] if got.op == 'raised' else 'is %s' % show(got)))
            if o is None or getattr(o, 'cls', None) is None:
                return ctx.undecided(key, RLOC, '%s: result %s' % (what, show(got)[:100]))
            ctx.require(o.cls.name == cls, key + '/kind', RLOC, '%s yields a %s instead of a %s' % (what, o.cls.name, cls))
            for ax, w in zip(AX, want):
                g = comp(got, ax)
                if g is None:
                    ctx.violation('%s.%s' % (key, ax), RLOC, '%s has no component %s' % (what, ax))
                else:
                    judge(ctx, '%s.%s' % (key, ax), RLOC, g, w, '%s, component %s' % (what, ax))

        def value(key, got, want, what):
            if got.op == 'raised':
                return ctx.violation(key, RLOC, '%s fails: %s' % (what, show(got)[:100]))
            if got.op == 'k' and want.op == 'k':
                return ctx.require(kv(got) == kv(want) and type(kv(got)) is type(kv(want)), key, RLOC, '%s is %r instead of %r' % (what, kv(got), kv(want)))
            judge(ctx, key, RLOC, got, want, what)

        def parts(got):
            o = e.st.obj(got) if got.op == 'ref' else None
            if o is not None and hasattr(o, 'pieces') and all(p[0] == 'i' for p in o.pieces):
                return [p[1] for p in o.pieces]
            return None

        def asis(key, v, xs, what):
            ctx.require(all(comp(v, ax) is x for ax, x in zip(AX, xs)), key, RLOC, '%s changes its operand' % what)

        # components
        for c, (axes, kind) in sorted(RE.items()):
            for i, n in enumerate(MIXED):
                xs = [K(MIXED[(i + 3 * j) % len(MIXED)]) for j in range(len(axes))]
                v = new(c, xs)
                want = [K(kind(kv(x))) for x in xs]
                for ax, w in zip(axes, want):
                    value('%s.%s(%s)' % (c, ax.upper(), n), e.m(v, ax.upper()), w, 'component %s of %s%s' % (ax.upper(), c, tuple(kv(x) for x in xs)))
                d = e.m(v, 'to_dict')
                ps = parts(d)
                if ps is None:
                    (ctx.violation if d.op == 'raised' else ctx.undecided)('%s.to_dict(%s)' % (c, n), RLOC, 'to_dict of %s: %s' % (c, show(d)[:100]))
                else:
                    ctx.require(len(ps) == len(want) and all(p.op == 'k' and kv(p) == kv(w) and type(kv(p)) is type(kv(w)) for p, w in zip(ps, want)), '%s.to_dict(%s)' % (c, n), RLOC,
                                'to_dict of %s%s is %s' % (c, tuple(kv(x) for x in xs), [show(p) for p in ps]))
                asis('%s/unchanged(%s)' % (c, n), v, xs, 'reading the components')
        # corners
        x, y, z = syms('a')
        s = I.sym('s', 'int')
        for i in range(8):
            got = I.call(I.lookup(R + 'ivec3.ivec5'), [K(i), x, y, z, s], {}, e.st, None)
            got = raised_or(e, got)
            have('ivec5(%d)' % i, got, 'ivec3', [add(x, s) if i & 1 else x, add(y, s) if i & 2 else y, add(z, s) if i & 4 else z], 'corner %d of a cube' % i)
        A, B = syms('a'), syms('b')
        a, b = new('ivec3', A), new('ivec3', B)
        n = I.sym('n', 'int')
        have('add', e.m(a, 'add', b), 'ivec3', [add(p, q) for p, q in zip(A, B)], 'add')
        have('sub', e.m(a, 'sub', b), 'ivec3', [sub(p, q) for p, q in zip(A, B)], 'sub')
        have('mul', e.m(a, 'mul', n), 'ivec3', [mul(p, n) for p in A], 'mul')
        for k in (0, 1, 2, 3, 8, 12):
            have('shl(%d)' % k, e.m(a, 'shl', K(k)), 'ivec3', [scale(p, 1 << k) for p in A], 'shl by %d' % k)
        for k in (0, 1, 7, 0xF0, 0xFFF8, -2):
            for xs in ((0, 5, -1), (4095, 248, 77), (-3, 1023, 16)):
                have('mask(%d)%s' % (k, str(xs).replace(' ', '')), e.m(new('ivec3', [K(q) for q in xs]), 'mask', K(k)), 'ivec3', [K(q & k) for q in xs], 'mask of %s by %d' % (xs, k))
        for i in range(3):
            value('gg(%d)' % i, e.m(a, 'gg', K(i)), A[i], 'component %d' % i)
        value('dot', e.m(a, 'dot', b), add(add(mul(A[0], B[0]), mul(A[1], B[1])), mul(A[2], B[2])), 'the dot product')
        for xs in __import__('itertools').product((-1, 0, 2), repeat=3):
            value('iszero%s' % str(xs).replace(' ', ''), e.m(new('ivec3', [K(q) for q in xs]), 'iszero'), K(xs == (0, 0, 0)), 'iszero of %s' % (xs,))
        asis('left/unchanged', a, A, 'an operation')
        asis('right/unchanged', b, B, 'an operation')
        for c in ('ivec3', 'vec3'):
            a, b = new(c, A), new(c, B)
            got = raised_or(e, I.call(I.lookup(R + 'cross'), [a, b], {}, e.st, None))
            have('cross(%s)' % c, got, c, [sub(mul(A[j], B[k]), mul(A[k], B[j])) for j, k in ((1, 2), (2, 0), (0, 1))], 'the cross product of two %s' % c)
            asis('cross(%s)/left' % c, a, A, 'the cross product')
            asis('cross(%s)/right' % c, b, B, 'the cross product')
        return I
    return guarded(ctx, 'engine vectors', go)


def raised_or(e, got):
    if not e.st.dead:
        return got
    d = e.st.dead
    e.st = e.I.state()
    return mk('raised', d if isinstance(d, (T, str)) else str(d)[:80])
