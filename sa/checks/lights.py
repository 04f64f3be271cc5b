"""The light manager: where lights go and which colour they get."""
from .common import *
from .. import evalt
from ..out import GiveUp
from .textures import Luck

LI = 'redeclipse.lighting:'
LOC = 'redeclipse/lighting/__init__.py'
V = 'redeclipse.vector:'
MANAGERS = ('LightManager', 'PositionBasedLightManager')


def setup(ctx, noise=None, hue=False):
    luck = Luck()
    ext = luck.ext()
    if noise is not None:
        ext['noise.pnoise3'] = noise
    asked = []

    def hue_of(I, args, kw, st, node):
        p = args[1] if len(args) > 1 else kw.get('pos')
        if p is None:
            return None
        asked.append((tuple(I.getattr_(p, k, st, None) for k in 'xyz'), I.loc(node)))
        return mk('tup', *[I.sym('hue%d' % i, 'int') for i in range(3)])
    intr = {LI + n + '.hue': hue_of for n in MANAGERS} if hue else {}
    I = engine(ctx, {'ext': ext, 'intrinsics': intr, 'max_steps': 100000000}, ('redeclipse', 'redeclipse.vector', 'redeclipse.entities', 'redeclipse.lighting'))
    I.luck = luck
    I.hues = asked
    return I


def attributes(I, st, e):
    names, vals = (I.getattr_(e, k, st, None, quiet=True) for k in ('attr_annotations', 'attrs'))
    R = (st.obj(names), st.obj(vals)) if names is not None and vals is not None else (None, None)
    if not all(isinstance(o, Seq) and all(p[0] == 'i' for p in o.pieces) for o in R):
        raise evalt.Unknown('attributes are not known')
    return {kv(a[1]): b[1] for a, b in zip(R[0].pieces, R[1].pieces) if iskt(a[1], 'str')}


PLACES = ((0, 0, 0), (1, 2, 3), (7, 8, 9), (31, 0, 5), (100, 255, 64), (-1, -8, 3), (12, 12, 12))


def same(a, b, syms):
    """two terms over the coordinates have the same value everywhere it is looked at"""
    if sub(a, b) is ZERO:
        return None
    for p in PLACES:
        env = dict(zip(syms, p))
        x, y = evalt.ev(a, env), evalt.ev(b, env)
        if abs(x - y) > 1e-9:
            return p, float(x), float(y)
    return None


def placing(ctx):
    ctx.rule('light() is evaluated for unknown positions of both kinds and every way of calling it; the entity that it adds is compared with the stated one')

    def go():
        I = setup(ctx, hue=True)
        base = I.lookup('redeclipse.entities:Light')
        for man in MANAGERS:
            cls = I.lookup(LI + man)
            if cls is None or cls.op != 'cls':
                ctx.undecided(man, LOC, 'no class')
                continue
            for world in (None, 64, 128, 256, 512, 1024):
                for kind in ('FineVector', 'CoarseVector'):
                    for auto in (None, True, False):
                        for colour in (None, (1, 2, 3), (0, 0, 0), (255, 254, 0)):
                            for size in (None, 'given'):
                                if world not in (None, 256, 128) and (colour or size):
                                    continue
                                key = '%s, world %s, %s, %s, %s, %s' % (man, world or 'default', kind, {None: 'default', True: 'centred', False: 'not centred'}[auto], colour, size or 'default size')
                                try:
                                    one(ctx, I, cls, base, key, world, kind, auto, colour, size)
                                except (evalt.Unknown, GiveUp) as e:
                                    ctx.undecided(key, LOC, str(e)[:200])
        return I
    return guarded(ctx, 'light', go)


def one(ctx, I, cls, base, key, world, kind, auto, colour, size):
    st = I.state()
    kw = {} if world is None else {'world_size': K(world)}
    m = I.call(cls, [], kw, st, None)
    syms = [I.sym('pos' + k, 'int') for k in 'xyz']
    pos = I.call(I.lookup(V + kind), list(syms), {}, st, None)
    old = st.alloc(Inst(None, {}, where='old'))
    ents = st.alloc(Seq('list', (('i', old),)))
    xmap = st.alloc(Inst(None, {'ents': ents}, where='map'))
    f = I.getattr_(m, 'light', st, None)
    loc = f.args[1].args[0].loc if f.op == 'bound' or len(f.args) > 1 else f.args[0].loc
    kw = {}
    if auto is not None:
        kw['autocenter'] = TRUE if auto else FALSE
    if colour is not None:
        kw['colour_override'] = mk('tup', *[K(c) for c in colour])
    s = None
    if size:
        s = kw['size_factor'] = I.sym('size', 'num')
    before = I.freeze(pos, st)
    del I.hues[:]
    I.call(f, [xmap, pos], kw, st, None)
    if st.dead:
        ctx.violation(key, loc, 'adding a light fails: %s [%s]' % (show(st.dead) if not isinstance(st.dead, bool) else 'exception', key))
        return
    now = I.getattr_(xmap, 'ents', st, None)
    o = st.obj(now)
    if not isinstance(o, Seq) or not all(p[0] == 'i' for p in o.pieces):
        raise evalt.Unknown('the entities are not known')
    l = [p[1] for p in o.pieces]
    if len(l) != 2 or l[0] is not old or now is not ents:
        ctx.violation(key, loc, '%d entities instead of the old one and one light [%s]' % (len(l), key))
        return
    if I.freeze(pos, st) != before:
        ctx.violation(key, loc, 'the position that is given changes [%s]' % key)
        return
    e = st.obj(l[1])
    if e is None or getattr(e, 'cls', None) is None or base.args[0] not in e.cls.mro:
        ctx.violation(key, loc, 'what is added is no Light [%s]' % key)
        return
    unit = 8 if kind == 'CoarseVector' else 1
    shift = 4 if auto in (None, True) else 0
    at = I.getattr_(l[1], 'o', st, None)
    fine = [add(scale(p, unit), K(shift)) for p in syms]
    for k, p in zip('xyz', fine):
        bad = same(I.getattr_(at, k, st, None), scale(p, Fraction(1024, world or 128) * 1), syms)
        # entity units: four to a voxel in a world of 256
        if bad is not None:
            ctx.violation(key, loc, 'the light of %s%s has %s = %s instead of %s [%s]' % (kind, bad[0], k, bad[1], bad[2], key))
            return
    a = attributes(I, st, l[1])
    r = a.get('radius')
    for v in (0.3, 0.5, 1, 1.01, 1.5, 3, 7):
        w = evalt.ev(r, {s: Fraction(v)} if s is not None else {})
        if abs(w - (64 * v if s is not None else 64)) > 1e-9:
            ctx.violation(key, loc, 'the radius is %s for size factor %s [%s]' % (float(w), v if s is not None else 'default', key))
            return
    for i, k in enumerate(('red', 'green', 'blue')):
        c = a.get(k)
        if colour is not None:
            if not isnum(c) or kv(c) != colour[i]:
                ctx.violation(key, loc, '%s is %s instead of %d [%s]' % (k, show(c), colour[i], key))
                return
        else:
            if c is not I.sym('hue%d' % i, 'int'):
                ctx.violation(key, loc, '%s is %s, not the part of the hue of the position [%s]' % (k, show(c)[:80], key))
                return
    if colour is None:
        hu = fine if shift or unit == 1 else syms
        for got, l in I.hues:
            for k, g, w in zip('xyz', got, hu):
                bad = same(g, w, syms)
                if bad is not None:
                    ctx.violation(key, l, 'the hue is that of a position with %s = %s instead of %s for %s%s [%s]' % (k, bad[1], bad[2], kind, bad[0], key))
                    return
    for k in ('flare', 'flarescale'):
        if k in a and not (isnum(a[k]) and kv(a[k]) == 0):
            ctx.violation(key, loc, '%s is %s [%s]' % (k, show(a[k]), key))
            return
    ctx.ok(key)
    ctx.stat('lights_compared')


# ---------------------------------------------------------------- hues
LEVELS = (-1, -0.7, -0.31, -0.002, 0, 0.0039, 0.25, 0.5, 0.9999, 1)


class Noise:
    """a noise function with chosen values: the same arguments give the same value"""

    def __init__(self):
        self.begin(())

    def begin(self, script):
        # None: a fixed function of the arguments
        self.script = None if script is None else list(script)
        self.known = {}

    def __call__(self, I, a, kw, st, node):
        if not all(isk(x) for x in list(a) + list(kw.values())):
            raise evalt.Unknown('the noise of %s is asked for' % ', '.join(show(x)[:40] for x in a))
        key = tuple(float(kv(x)) for x in a) + tuple(sorted((k, float(kv(x))) for k, x in kw.items()))
        if self.script is None:
            x = sum(v * w for v, w in zip((w for w in key if not isinstance(w, tuple)), (37.1, 91.7, 53.3))) + sum(w[1] for w in key if isinstance(w, tuple))
            return K((x * 0.618) % 2 - 1)
        if key not in self.known:
            self.known[key] = self.script.pop(0) if self.script else 0.125
        return K(float(self.known[key]))


def triples(tier):
    l = LEVELS if tier == 'quick' else tuple(sorted(set(LEVELS) | {i / 16 for i in range(-16, 17, 3)}))
    for i, a in enumerate(l):
        for j, b in enumerate(l):
            for k, c in enumerate(l):
                if tier != 'quick' or (i + 3 * j + 7 * k) % 5 == 0 or i == j == k:
                    yield a, b, c


def hues(ctx):
    ctx.rule('hue() is evaluated for chosen values of the noise function, brightness and saturation; the colour is compared with its stated bounds and with the colour at the same place and time')
    ctx.assumption('noise.pnoise3 returns a number between -1 and 1 that is determined by its arguments')

    def go():
        noise = Noise()
        I = setup(ctx, noise=noise)
        for man in MANAGERS:
            cls = I.lookup(LI + man)
            if cls is None or cls.op != 'cls':
                ctx.undecided(man, LOC, 'no class')
                continue
            for bright in (None, 1.0, 0.5, 0.25, 0.0, 0.999, 1.5, 4):
                for sat in (None, 0.0, 0.3, 0.6, 1.0):
                    if man == 'LightManager' and (bright, sat) not in ((None, None), (0.5, 0.3), (0.0, 0.0)):
                        continue
                    key = '%s, brightness %s, saturation %s' % (man, bright, sat)
                    try:
                        bad, loc, n = shades(ctx, I, noise, cls, man, bright, sat)
                        ctx.require(bad is None, key, loc, '%s [%s]' % (bad, key))
                        ctx.stat('colours_compared', n)
                    except (evalt.Unknown, GiveUp) as e:
                        ctx.undecided(key, LOC, str(e)[:200])
            for n, near in enumerate(NEAR):
                key = '%s, history %d' % (man, n)
                try:
                    bad, loc = history(I, noise, cls, near)
                    ctx.require(bad is None, key, loc, '%s [%s]' % (bad, key))
                    ctx.stat('histories_compared')
                except (evalt.Unknown, GiveUp) as e:
                    ctx.undecided(key, LOC, str(e)[:200])
        return I
    return guarded(ctx, 'hue', go)


NEAR = (tuple((100 + i, 57, 33) for i in range(10)), tuple((8 * i, 8 * (9 - i), 8) for i in range(10)), tuple((1, 1 + i % 3, i // 3) for i in range(9)), ((5, 6, 7), (6, 5, 7), (7, 6, 5), (5, 7, 6)),
        ((0, 0, 0), (1024, 0, 0), (0, 1024, 0), (0, 0, 1024), (-1, 0, 0)))


def history(I, noise, cls, near):
    """the hues of neighbours one after the other, and after changes of brightness and saturation, are those of a new manager"""
    noise.begin(None)
    st = I.state()
    m = I.call(cls, [], {}, st, None)
    for b, s in ((None, None), (0.3, None), (0.3, 0.5), (1.0, 1.0)):
        if b is not None:
            I.setattr_(m, 'brightness', K(b), st, None)
        if s is not None:
            I.setattr_(m, 'saturation', K(s), st, None)
        kw = {k: I.getattr_(m, k, st, None) for k in ('brightness', 'saturation')}
        for p in near + near[:1]:
            f = I.getattr_(m, 'hue', st, None)
            got = []
            for o in (m, I.call(cls, [], dict(kw), st, None)):
                I.luck.script = [Fraction(1 + 3 * len(got), 11)] * 20
                v = I.call(I.getattr_(o, 'hue', st, None), [vector(I, st, p)], {}, st, None)
                if st.dead:
                    return 'the hue of %s cannot be told' % (p,), f.args[1].args[0].loc
                if v.op != 'tup' or not all(isnum(x) for x in v.args):
                    raise evalt.Unknown('the hue is %s' % show(v)[:100])
                got.append(tuple(kv(x) for x in v.args))
            if got[0] != got[1]:
                return 'the hue of %s is %s after other lights or another brightness, but %s for a new manager' % (p, got[0], got[1]), f.args[1].args[0].loc
    return None, LOC


def shades(ctx, I, noise, cls, man, bright, sat):
    kw = {}
    if bright is not None:
        kw['brightness'] = K(bright)
    if sat is not None:
        kw['saturation'] = K(sat)
    b = 1.0 if bright is None else min(bright, 1.0)
    s = 1.0 if sat is None else sat
    n = 0
    f = None
    for t in triples(ctx.tier):
        p = (3 + n % 11, 5 - n % 7, 64 + n)
        st = I.state()
        m = I.call(cls, [], dict(kw), st, None)
        got = []
        for again in range(3):
            noise.begin(t)
            I.luck.script = [Fraction(1 + 3 * again, 11)] * 20
            q = p if again < 2 else p
            if again == 1:
                # another light in between
                I.call(I.getattr_(m, 'hue', st, None), [vector(I, st, (1, 1, 1))], {}, st, None)
                noise.begin(t)
            if again == 2:
                m = I.call(cls, [], dict(kw), st, None)
            f = I.getattr_(m, 'hue', st, None)
            v = I.call(f, [vector(I, st, q)], {}, st, None)
            loc = f.args[1].args[0].loc if len(f.args) > 1 else LOC
            if st.dead:
                return 'the hue of %s cannot be told (%s)' % (p, show(st.dead) if not isinstance(st.dead, bool) else 'exception'), loc, n
            if v.op != 'tup' or len(v.args) != 3 or not all(isnum(x) for x in v.args):
                raise evalt.Unknown('the hue is %s' % show(v)[:100])
            if any(isinstance(kv(x), float) or kv(x) != int(kv(x)) for x in v.args):
                return 'the hue %s is not made of whole numbers' % show(v), loc, n
            got.append(tuple(int(kv(x)) for x in v.args))
        n += 1
        if len(set(got)) > 1:
            return 'the hue of the same position is %s at one time and %s at another' % (got[0], [g for g in got if g != got[0]][0]), loc, n
        c = got[0]
        if not all(0 <= x <= 255 for x in c):
            return 'the hue %s (noise %s) is not between 0 and 255' % (c, t), loc, n
        if man == 'LightManager':
            if c != (255, 255, 255):
                return 'the hue is %s, not white' % (c,), loc, n
            continue
        if abs(max(c) - 255 * b) > 1:
            return 'the brightest part of the hue %s (noise %s) is not %s' % (c, t, 255 * b), loc, n
        if abs(min(c) - 255 * b * (1 - s)) > 2:
            return 'the darkest part of the hue %s (noise %s) is not %s' % (c, t, 255 * b * (1 - s)), loc, n
    return None, loc, n


def vector(I, st, p):
    return I.call(I.lookup(V + 'FineVector'), [K(x) for x in p], {}, st, None)
