"""Effects applied to a finished voxel world, and the gradients they use."""
from fractions import Fraction
from .common import *
from .. import evalt
from ..out import GiveUp
from .textures import Luck
from . import kit as kits

AE = 'redeclipse.aftereffects:'
LOC = 'redeclipse/aftereffects.py'
V = 'redeclipse.vector:'


class Worlds:
    def __init__(self, ctx):
        self.ctx = ctx
        self.luck = Luck()
        self.draws = 0
        self.points = []
        self.chance = lambda p: Fraction(1, 2)
        ext = self.luck.ext()
        ext.update({'random.random': self.draw, 'position function': self.position})
        self.I = engine(ctx, {'ext': ext, 'max_steps': 100000000, 'unroll': 4000}, ('redeclipse', 'redeclipse.aftereffects'))
        self.I.load('redeclipse.voxel')
        self.I.load('redeclipse.objects')
        self.I.load('redeclipse.upm')

    def draw(self, I, a, kw, st, node):
        self.draws += 1
        return K(float(self.value(self.draws - 1)))

    def position(self, I, a, kw, st, node):
        if len(a) + len(kw) != 3:
            return None
        a = list(a) + [kw[k] for k in 'xyz'[len(a):] if k in kw]
        if len(a) != 3 or not all(isnum(x) for x in a):
            raise evalt.Unknown('the point is not known')
        p = tuple(int(kv(x)) for x in a)
        self.points.append(p)
        return K(float(self.chance(p)))

    def world(self, size, filled):
        """a voxel world with cubes of different textures at some points"""
        I = self.I
        self.st = st = I.state()
        self.draws, self.points = 0, []
        w = I.call(I.lookup('redeclipse.voxel:VoxelWorld'), [], {'size': K(size)}, st, None)
        new = I.lookup('redeclipse.objects:cube.newtexcube')
        f = I.getattr_(w, 'set_point', st, None)
        for i, p in enumerate(filled):
            c = I.call(new, [], {'tex': K(10 + i)}, st, None)
            I.call(f, [K(v) for v in p] + [c], {}, st, None)
        if st.dead:
            raise evalt.Unknown('a world cannot be filled')
        self.before = self.contents(w)
        return w

    def contents(self, w):
        o = self.st.obj(self.I.getattr_(w, 'world', self.st, None))
        if not isinstance(o, Dic):
            raise evalt.Unknown('the world is no dictionary')
        out = {}
        for p in o.pieces:
            if p[0] != 'i' or p[1][0].op != 'tup' or not all(isnum(x) for x in p[1][0].args):
                raise evalt.Unknown('the points of the world are not known')
            out[tuple(int(kv(x)) for x in p[1][0].args)] = p[1][1]
        return out

    def apply(self, name, w, *args, **kw):
        """run an effect; (place, world afterwards or None if it fails)"""
        I, st = self.I, self.st
        f = I.lookup(AE + name)
        if f is None or f.op != 'fn':
            raise evalt.Unknown('no function %s' % name)
        loc = f.args[0].loc
        I.call(f, [w] + list(args), kw, st, None)
        if st.dead:
            return loc, None
        for e in st.eff:
            if e.kind in ('if', 'loop', 'top', 'try'):
                raise evalt.Unknown('the effect is not followed (%s)' % e.kind)
        return loc, self.contents(w)

    def looks(self, c):
        """what a cube looks like"""
        o = self.st.obj(c)
        if not isinstance(o, Inst) or o.cls is None or o.cls.name != 'cube':
            return None
        return [self.I.freeze(v, self.st) if v is not None else None for v in [self.I.getattr_(c, k, self.st, None, quiet=True) for k in ('texture', 'octsav', 'edges', 'children', 'material')]]

    def compare(self, key, loc, got, removed, added, what):
        """the world afterwards: the one before without and with these points; added points hold new cubes of their own"""
        ctx = self.ctx
        if got is None:
            ctx.violation(key, loc, '%s fails: %s' % (what, kits.dead(self.st)))
            return False
        want = (set(self.before) - set(removed)) | set(added)
        if set(got) != want:
            p = sorted(set(got) ^ want)[0]
            ctx.violation(key, loc, '%s: point %s is %s' % (what, p, 'empty' if p in want else 'filled'))
            return False
        I, st = self.I, self.st
        ref = self.looks(I.call(I.lookup('redeclipse.objects:cube.newtexcube'), [], {'tex': K(2)}, st, None))
        seen = set()
        for p, c in sorted(got.items()):
            if p not in added:
                if c is not self.before[p]:
                    ctx.violation(key, loc, '%s: the cube at %s is replaced' % (what, p))
                    return False
                continue
            if p in self.before and c is self.before[p]:
                ctx.violation(key, loc, '%s: the cube at %s is kept' % (what, p))
                return False
            if c in seen:
                ctx.violation(key, loc, '%s: the cube at %s is used at another point too' % (what, p))
                return False
            seen.add(c)
            if self.looks(c) != ref:
                ctx.violation(key, loc, '%s: the cube at %s is not a solid cube of texture 2' % (what, p))
                return False
        ctx.stat('points_compared', len(got | {p: None for p in removed}))
        return True


def box(nx, ny, nz):
    return [(x, y, z) for z in range(nz) for x in range(nx) for y in range(ny)]


def each(ctx, cases, run):
    def go():
        R = Worlds(ctx)
        for c in cases:
            key = c[0]
            try:
                if run(R, *c) is not False:
                    ctx.ok(key)
            except (evalt.Unknown, kits.Unknown) as e:
                ctx.undecided(key, LOC, str(e)[:200])
        return R.I
    return guarded(ctx, 'aftereffects', go)


# ---------------------------------------------------------------- decay and growth
SHAPES = {
    'full': lambda n, h: box(n, n, h + 1),
    'every second point': lambda n, h: [p for p in box(n, n, h + 1) if sum(p) % 2 == 0] + [(0, 0, h)],
    'a pillar': lambda n, h: [(n - 1, 0, z) for z in range(h + 1)],
    'the top only': lambda n, h: [(1, 1, h)],
    'beyond the edge': lambda n, h: box(n + 1, n + 1, h + 1) + [(-1, 0, 0), (0, -1, 1)],
}


def dice(ctx):
    ctx.rule('decay and growth are evaluated on small worlds with chosen random draws and a position function that names its point; which draw decides about which point is found by raising one draw at a time')
    ctx.assumption('random.random yields independent numbers that are uniform in [0, 1)')
    cases = []
    for effect in ('decay', 'growth'):
        for n, h in ((1, 1), (2, 3), (3, 2), (4, 1)) + (((5, 4), (6, 7)) if ctx.tier == 'thorough' else ()):
            for s in SHAPES:
                cases.append(('%s, %s, size %d, top layer %d' % (effect, s, n, h), effect, n, h, s))
    return each(ctx, cases, dice_one)


def dice_one(R, key, effect, n, h, shape):
    ctx, I = R.ctx, R.I
    filled = SHAPES[shape](n, h)
    todo = box(n, n, h)
    fn = mk('ext', 'position function')
    what = '%s of a world of size %d with top layer %d (%s)' % (effect, n, h, shape)

    def run(value, chance):
        R.value, R.chance = value, chance
        w = R.world(n, filled)
        return R.apply(effect, w, fn)

    def check(hit, got, loc, more):
        hit = {p for p in hit}
        old = set(R.before)
        return R.compare(key, loc, got, hit if effect == 'decay' else (), hit - old if effect == 'growth' else (), what + more)
    # which points
    half = Fraction(1, 2)
    for a, b in ((Fraction(1, 4), half), (half, half), (Fraction(3, 4), half), (Fraction(0), Fraction(0)), (Fraction(0), Fraction(1)), (Fraction(999, 1000), Fraction(1)), (half, Fraction(-1)), (half, Fraction(2))):
        loc, got = run(lambda i: a, lambda p: b)
        if not check(todo if a > b else (), got, loc, ': draws of %s, function %s' % (float(a), float(b))):
            return False
        if sorted(set(R.points)) != sorted(todo) and R.draws:
            odd = sorted(set(R.points) ^ set(todo))
            if odd and b == half and set(todo) - set(R.points):
                ctx.violation(key, loc, '%s: no decision about point %s' % (what, sorted(set(todo) - set(R.points))[0]))
                return False
    for k in range(3):
        pick = lambda p: (p[0] + 2 * p[1] + 3 * p[2]) % 3 == k
        loc, got = run(lambda i: half, lambda p: Fraction(1, 4) if pick(p) else Fraction(3, 4))
        if not check([p for p in todo if pick(p)], got, loc, ': function 0.25 at some points, 0.75 at others'):
            return False
    # one draw of its own for each point
    loc, got = run(lambda i: half, lambda p: Fraction(3, 4))
    n_draws = R.draws
    if n_draws < len(todo):
        ctx.violation(key, loc, '%s: %d random numbers decide about %d points' % (what, n_draws, len(todo)))
        return False
    owner = {}
    for j in range(n_draws):
        loc, got = run(lambda i: Fraction(7, 8) if i == j else half, lambda p: Fraction(3, 4))
        if got is None:
            return check((), got, loc, '')
        if effect == 'decay':
            hit = set(R.before) - set(got)
            able = [p for p in todo if p in R.before]
        else:
            hit = set(got) - set(R.before)
            able = [p for p in todo if p not in R.before]
        if len(hit) > 1:
            ctx.violation(key, loc, '%s: one random number decides about %s and %s' % ((what,) + tuple(sorted(hit)[:2])))
            return False
        for p in hit:
            if p in owner:
                raise evalt.Unknown('several random numbers about one point')
            owner[p] = j
    if set(owner) != set(able):
        raise evalt.Unknown('several random numbers about one point')
    ctx.stat('draws_assigned', len(owner))
    return True


# ---------------------------------------------------------------- shapes
def shapes(ctx):
    ctx.rule('grid, box, box_outline and endcap are evaluated on small worlds; the points they fill, keep and replace are compared with the definition')
    cases = []
    for n in (1, 2, 3, 5, 6):
        for s in ('full', 'every second point', 'a pillar', 'the top only', 'beyond the edge', 'empty'):
            if n == 6 and s == 'full' and ctx.tier == 'quick':
                continue
            for g in (1, 2, 3, 5):
                cases.append(('grid of %d, %s, size %d' % (g, s, n), 'grid', n, s, g))
    for effect in ('box', 'box_outline'):
        for n in (1, 2, 3, 5):
            for s in ('empty', 'every second point', 'beyond the edge'):
                for g in (None, 1, 2, n - 1, n):
                    if g is None or 0 < g <= n:
                        cases.append(('%s, height %s, %s, size %d' % (effect, g, s, n), effect, n, s, g))
    cases = list({c[0]: c for c in cases}.values())
    for i in range(4):
        cases.append(('cap %d' % i, 'endcap', 64, 'empty', i))
    return each(ctx, cases, shape_one)


DOORS = ([], [('FineVector', (8, 16, 0))], [('CoarseVector', (2, 3, 1)), ('CoarseVector', (2, 3, 1))], [('CoarseVector', (1, 2, 3)), ('FineVector', (40, 0, 8)), ('CoarseVector', (7, 7, 7))])


def shape_one(R, key, effect, n, s, g):
    I = R.I
    h = n - 1
    filled = SHAPES[s](n, h) if s != 'empty' else []
    if effect == 'endcap':
        w = R.world(n, [(0, 0, 0), (17, 24, 8), (16, 24, 8), (63, 63, 63), (40, 7, 15)])
        rows, want = [], set()
        for kind, p in DOORS[g]:
            v = I.call(I.lookup(V + kind), [K(x) for x in p], {}, R.st, None)
            rows.append(('i', mk('tup', v, NONE, NONE)))
            q = [x * (8 if kind == 'CoarseVector' else 1) for x in p]
            want |= {(q[0] + a, q[1] + b, q[2] + c) for a, b, c in box(8, 8, 8)}
        u = R.st.alloc(Inst(None, {'unoccupied': R.st.alloc(Seq('list', tuple(rows)))}, where='manager'))
        loc, got = R.apply(effect, w, u)
        return R.compare(key, loc, got, (), want, 'caps at %s' % ([p for _, p in DOORS[g]],))
    w = R.world(n, filled)
    top = max([p[2] for p in filled], default=0)
    if effect == 'grid':
        loc, got = R.apply(effect, w, size=K(g))
        want = {p for p in box(n, n, top) if sum(c % g == 0 for c in p) >= 2} - set(R.before)
    else:
        loc, got = R.apply(effect, w, **({'height': K(g)} if g is not None else {}))
        want = set()
        for p in box(n, n, g or n):
            sides = sum(c == 0 for c in p) + sum(c == n - 1 for c in p)
            if sides >= (1 if effect == 'box' else 2):
                want.add(p)
    return R.compare(key, loc, got, (), want, key)


# ---------------------------------------------------------------- gradients
def gradients(ctx):
    ctx.rule('the gradient functions are evaluated at every height; values are compared with the stated bounds and relations')

    def go():
        R = Worlds(ctx)
        top = 1025 if ctx.tier == 'quick' else 8193
        vals = {}
        for n in ('vertical_gradient', 'vertical_gradient2', 'vertical_gradient2inv', 'gradient3'):
            try:
                vals[n] = values(R, n, top)
            except evalt.Unknown as e:
                ctx.undecided(n, LOC, str(e)[:200])
        for n, (loc, l) in vals.items():
            if l is None:
                continue
            bad = None
            for z, v in enumerate(l):
                if n == 'vertical_gradient' and abs(v - (1 - z / 256)) > 1e-9:
                    bad = (z, 'is %s instead of 1 - z/256' % v)
                if n == 'vertical_gradient2' and not (0 <= v <= 1):
                    bad = (z, 'is %s, not between 0 and 1' % v)
                if n == 'vertical_gradient2inv' and 'vertical_gradient2' in vals and vals['vertical_gradient2'][1] and abs(v + vals['vertical_gradient2'][1][z] - 1) > 1e-9:
                    bad = (z, 'is %s, but vertical_gradient2 is %s' % (v, vals['vertical_gradient2'][1][z]))
                if n in ('vertical_gradient2', 'gradient3') and z and v > l[z - 1]:
                    bad = (z, 'is %s, more than below' % v)
                if n == 'gradient3' and not (0 < v <= 1):
                    bad = (z, 'is %s, not between 0 and 1' % v)
                if n in ('vertical_gradient2', 'gradient3') and z == 0 and v != 1:
                    bad = (z, 'is %s instead of 1' % v)
                if bad:
                    break
            if n == 'vertical_gradient2' and not bad and l[1024] != 0:
                bad = (1024, 'is %s instead of 0' % l[1024])
            ctx.require(bad is None, n, loc, '%s at height %s %s' % ((n,) + (bad or (0, ''))))
            if n == 'vertical_gradient' and not bad:
                for slope in (1, 7, 100, 256, 1024):
                    st = R.I.state()
                    v = R.I.call(R.I.lookup(AE + n), [K(1), K(2), K(35)], {'slope': K(slope)}, st, None)
                    if st.dead or abs(float(evalt.ev(v, {})) - (1 - 35 / slope)) > 1e-9:
                        ctx.violation(n, loc, '%s with slope %d is %s at height 35' % (n, slope, show(v)))
                        break
            ctx.stat('heights_compared', len(l))
        return R.I
    return guarded(ctx, 'aftereffects', go)


def values(R, n, top):
    I = R.I
    f = I.lookup(AE + n)
    if f is None or f.op != 'fn':
        raise evalt.Unknown('no function %s' % n)
    out = []
    for z in range(top):
        st = I.state()
        v = I.call(f, [K(z % 7), K(z % 5), K(z)], {}, st, None)
        if st.dead:
            R.ctx.violation(n, f.args[0].loc, '%s at height %d fails' % (n, z))
            return f.args[0].loc, None
        v = evalt.ev(v, {})
        out.append(float(v))
        if z % 16 == 3:
            w = anywhere(R, f, z)
            if w is not None and abs(w[2] - out[-1]) > 1e-12:
                R.ctx.violation(n, f.args[0].loc, '%s at height %d depends on x or y: it is %s at (%s, %s)' % (n, z, w[2], w[0], w[1]))
                return f.args[0].loc, None
    return f.args[0].loc, out


FAR = (0, 1, 2, 3, 5, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 200, 255, 256, 300, 511, 512, 700, 1000, 1023, 1024)


def anywhere(R, f, z):
    """a point of this height with a value that differs from the others', or any (None: the value does not mention x and y)"""
    I, st = R.I, R.I.state()
    X, Y = I.sym('x', 'int'), I.sym('y', 'int')
    try:
        w = I.call(f, [X, Y, K(z)], {}, st, None)
        if not st.dead and not st.pc:
            if not evalt.atoms(w):
                return 'x', 'y', float(evalt.ev(w, {}))
            seen = [(x, y, float(evalt.ev(w, {X: x, Y: y}))) for x in FAR for y in FAR]
            return next((c for c in seen if abs(c[2] - seen[0][2]) > 1e-12), seen[0])
    except (evalt.Unknown, GiveUp):
        pass
    seen = []
    for x in FAR:
        st = I.state()
        y = FAR[(FAR.index(x) * 7 + z) % len(FAR)]
        v = I.call(f, [K(x), K(y), K(z)], {}, st, None)
        seen.append((x, y, float(evalt.ev(v, {})) if not st.dead else float('nan')))
    return next((c for c in seen if not abs(c[2] - seen[0][2]) <= 1e-12), seen[0])
