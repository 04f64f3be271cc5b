"""Construction kit: which voxels a shape covers, and what is put there."""
import itertools
import random
from .draw import *
from .. import evalt
from ..eqv import judge

LOC = 'redeclipse/prefabs/construction_kit.py'
DIR = {'EAST': (1, 0, 0), 'NORTH': (0, 1, 0), 'WEST': (-1, 0, 0), 'SOUTH': (0, -1, 0), 'ABOVE': (0, 0, 1), 'BELOW': (0, 0, -1)}
UNIT = {'FineVector': 1, 'CoarseVector': 8}


def span(s):
    return range(0, s) if s > 0 else range(s + 1, 1)


def box(sx, sy, sz, ox=0, oy=0, oz=0):
    return {(ox + x, oy + y, oz + z) for x in span(sx) for y in span(sy) for z in span(sz)}


def ring(n):
    return {(x, y, 0) for x in range(n) for y in range(n) if x in (0, n - 1) or y in (0, n - 1)}


def wall(face, h=8):
    return {'EAST': box(1, 8, h, 7), 'WEST': box(1, 8, h), 'NORTH': box(8, 1, h, 0, 7), 'SOUTH': box(8, 1, h)}[face]


def column(d, n):
    return {tuple(i * c for c in DIR[d]) for i in range(n)}


def dotted(d, n, on=2, off=2):
    return {tuple(i * c for c in DIR[d]) for i in range(n) if i % (on + off) < on}


class Kit:
    def __init__(self, ctx, plain_cubes=False):
        self.ctx = ctx
        more = {}
        if plain_cubes:      # what is stored does not matter
            more['redeclipse.objects:cube.newtexcube'] = lambda I, args, kw, st, node: mk('sym', 'texcube', ty=('obj', 'redeclipse.objects:cube'))
        self.I = engine(ctx, {'intrinsics': {**world_intrinsics(), **more}, 'max_steps': 80000000},
                        ('redeclipse', 'redeclipse.vector', 'redeclipse.vector.orientations', 'redeclipse.prefabs.construction_kit', 'redeclipse.voxel'))
        self.fresh()

    def fresh(self):
        I = self.I
        self.st = I.state()
        self.w = I.call(I.lookup(VW), [K(256)], {}, self.st, None)

    def const(self, n):
        return self.I.lookup(O + n)

    def vec(self, cls, comps):
        return self.I.call(self.I.lookup(V + cls), list(comps), {}, self.st, None)

    def fv(self, *c):
        return self.vec('FineVector', [K(x) for x in c])

    def syms(self, n, ty='int'):
        return [self.I.sym(n + k, ty) for k in 'xyz']

    def maker(self, orientation, poscls='CoarseVector'):
        I = self.I
        k = I.call(I.lookup(KIT), [], {}, self.st, None)
        I.setattr_(k, 'pos', self.vec(poscls, self.syms('pos')), self.st, None)
        I.setattr_(k, 'orientation', self.const(orientation), self.st, None)
        return k

    def loc(self, name):
        try:
            return self.I.lookup(KIT + '.' + name).args[0].loc
        except Exception:
            return LOC

    def draw(self, k, shape, *args, **kw):
        """effects of one drawing call"""
        st = self.st
        n = len(st.eff)
        self.I.call(self.I.getattr_(k, 'x', st, None), [K(shape), self.w] + list(args), kw, st, None)
        return list(st.eff)[n:]


# ---------------------------------------------------------------- summaries under one valuation
class Unknown(evalt.Unknown):
    pass


def replay(effs, env, out, loops=()):
    """the stores and deletions of a summary under a valuation of the inputs (loop counters are enumerated)"""
    for e in effs:
        if e.kind == 'cell':
            out.append((e.data[0],) + tuple(number(c, env) for c in e.data[1:4]))
        elif e.kind == 'if':
            try:
                v = evalt.ev(e.data[0], env)
            except evalt.Unknown as x:
                raise Unknown(str(x))
            replay(e.data[1] if v else e.data[2], env, out)
        elif e.kind == 'loop':
            lp = e.data[0]
            c = lp.count
            if c is None:
                raise Unknown('loop of unknown length')
            for i in range(max(0, int(number(c, env)))):
                if len(out) > 100000:
                    raise Unknown('too many cells')
                x = dict(env)
                for d in idx_terms(lp):
                    x[d] = i
                replay(e.data[1], x, out)
        elif e.kind == 'top':
            raise Unknown('not analysable: %s' % (show(e.data[0]) if isinstance(e.data[0], T) else str(e.data[0])))


def idx_terms(lp):
    out = []
    while lp is not None and lp.idx() not in out:
        out.append(lp.idx())
        lp = lp.origin
    return out


def number(t, env):
    try:
        return evalt.ev(t, env)
    except evalt.Unknown as x:
        raise Unknown(str(x))


VALS = [(0, 0, 0, 0, 0, 0), (3, -2, 5, 1, 7, -4), (11, 40, 2, -9, 13, 6), (1, 1, 1, 30, -17, 9)]


def shapes():
    """(shape name, arguments, keyword arguments, covered cells of the eastward shape at offset 0)"""
    sizes = list(range(1, 10)) + [16, 24, -1, -2, -3, -8]
    for s in sizes + [0]:
        for b in ((s, 2, 3), (3, s, 2), (2, 3, s)):
            yield 'rectangular_prism', [('fv',) + b], {}, box(*b)
    for b in ((1, 1, 1), (8, 8, 8), (4, -5, 6), (-4, 5, -6), (-3, -3, 2)):
        yield 'rectangular_prism', [('fv',) + b], {}, box(*b)
    yield 'cube', [], {}, {(0, 0, 0)}
    for d in DIR:
        for n in (0, 1, 2, 8, 13):
            yield 'column', [('dir', d), n], {}, column(d, n)
        for n in (0, 1, 8, 17):
            yield 'dotted_column', [('dir', d), n], {}, dotted(d, n)
        yield 'dotted_column', [('dir', d), 11], {'on': 2, 'off': 1}, dotted(d, 11, 2, 1)
        yield 'dotted_column', [('dir', d), 16], {'on': 1, 'off': 4}, dotted(d, 16, 1, 4)
        yield 'dotted_column', [('dir', d), 9], {'on': 3, 'off': 0}, dotted(d, 9, 3, 0)
    for n in (None, 1, 2, 8, 14, 16, 24):
        kw = {} if n is None else {'size': n}
        yield 'floor', [], kw, box(n or 8, n or 8, 1)
        yield 'ceiling', [], kw, box(n or 8, n or 8, 1, 0, 0, 7)
    for f in COMPASS:
        yield 'wall', [('dir', f)], {}, wall(f)
        yield 'low_wall', [('dir', f)], {}, wall(f, 3)
        for h in (1, 5):
            yield 'wall', [('dir', f)], {'limit_j': h}, wall(f, h)
        yield 'wall', [], {'face': ('dir', f)}, wall(f)
    for n in (2, 3, 8, 12, 16, 20, 24):
        yield 'ring', [n], {}, ring(n)


def geometry(ctx):
    ctx.rule('every shape is evaluated for an arbitrary position and offset in every orientation; the set of cells stored must be, as polynomials in the position '
             'and offset, the eastward shape turned about the centre of the cell of the room')
    ctx.rule('boxes and columns of arbitrary size: the loops around the store are summarised to an interval per axis, which must be the turned interval')
    ctx.assumption('positions, offsets and sizes are whole numbers')

    def go():
        kit = Kit(ctx, plain_cubes=True)
        combos = [('CoarseVector', 'FineVector'), ('CoarseVector', 'CoarseVector')]
        if ctx.thorough:
            combos += [('FineVector', 'FineVector'), ('FineVector', 'CoarseVector')]
        for orient in range(4):
            for poscls, offcls in combos:
                for shape, args, kw, rel in shapes():
                    if offcls == 'CoarseVector' and not ctx.thorough and len(rel) > 130:
                        continue
                    one(kit, orient, poscls, offcls, shape, args, kw, rel)
        for poscls in ('FineVector',):
            for orient in range(4):
                one(kit, orient, poscls, 'FineVector', 'rectangular_prism', [('fv', 2, 3, 4)], {}, box(2, 3, 4))
        for orient in range(4):
            arbitrary(kit, orient)
        return kit.I
    return guarded(ctx, 'geometry', go)


def value(kit, a):
    if isinstance(a, tuple):
        return kit.fv(*a[1:]) if a[0] == 'fv' else kit.const(a[1])
    return K(a)


def one(kit, orient, poscls, offcls, shape, args, kw, rel):
    ctx = kit.ctx
    kit.fresh()
    k = kit.maker(COMPASS[orient], poscls)
    off = kit.vec(offcls, kit.syms('off'))
    text = ', '.join([' '.join(map(str, a)) if isinstance(a, tuple) else str(a) for a in args] + ['%s=%s' % (n, v[1] if isinstance(v, tuple) else v) for n, v in sorted(kw.items())])
    key = '%s(%s)/%s/%s+%s' % (shape, text.replace('fv ', '').replace('dir ', ''), COMPASS[orient], poscls[0], offcls[0])
    loc = kit.loc('x_' + shape)
    effs = kit.draw(k, shape, off, *[value(kit, a) for a in args], **{n: value(kit, v) for n, v in kw.items()})
    if kit.st.dead:
        ctx.violation(key, loc, 'drawing fails: %s' % dead(kit.st))
        return
    ux, uo = UNIT[poscls], UNIT[offcls]
    pos = [scale(s, ux) for s in kit.syms('pos')]
    o = [scale(s, uo) for s in kit.syms('off')]
    # base: where the offset itself goes
    t = [(o[0], o[1]), (sub(K(7), o[1]), o[0]), (sub(K(7), o[0]), sub(K(7), o[1])), (o[1], sub(K(7), o[0]))][orient]
    base = [add(pos[0], t[0]), add(pos[1], t[1]), add(pos[2], o[2])]
    want = {TURN[orient](x, y) + (z,) for x, y, z in rel}
    got = set()
    plain = True
    for what, xyz, data, path, _ in cells(effs):
        d = tuple(sub(c, b) for c, b in zip(xyz, base))
        if path or what != 'set' or not all(isnum(v) for v in d):
            plain = False
            break
        got.add(tuple(int(kv(v)) if kv(v) == int(kv(v)) else float(kv(v)) for v in d))
    ctx.stat('shapes_compared')
    ctx.stat('cells_compared', len(want))
    if plain and not list(tops(effs)):
        if got == want:
            ctx.ok(key)
            return
        miss, more = sorted(want - got), sorted(got - want)
        ctx.violation(key, loc, '%s(%s) drawn towards %s covers %s%s (relative to its offset, %d cells instead of %d)' % (
            shape, text, COMPASS[orient], 'not %s' % (miss[0],) if miss else '', ' %s too' % (more[0],) if more else '', len(got), len(want)))
        return
    why = sampled(kit, effs, base, want)
    if why:
        ctx.violation(key, loc, '%s(%s) drawn towards %s: %s' % (shape, text, COMPASS[orient], why))
    else:
        ctx.undecided(key, loc, 'shape not summarised')


def dead(st):
    return show(st.dead)[:120] if isinstance(st.dead, T) else str(st.dead)[:120]


def sampled(kit, effs, base, want, more=()):
    """a definite difference under one of a few valuations, or None"""
    for vals in VALS:
        env = dict(zip(kit.syms('pos') + kit.syms('off'), vals))
        for m in more:
            env.update(m)
        try:
            out = []
            replay(effs, env, out)
            b = [number(t, env) for t in base]
            w = want(env) if callable(want) else want
        except Unknown:
            continue
        got = {}
        for op in out:
            got[op[1:]] = op[0]
        g = {tuple(c - x for c, x in zip(p, b)) for p, op in got.items() if op == 'set'}
        if g != w:
            miss, extra = sorted(w - g), sorted(g - w)
            return 'for position %s and offset %s it covers %s%s' % (vals[:3], vals[3:], 'not %s' % (miss[0],) if miss else '', ' %s too' % (extra[0],) if extra else '')
    return None


def arbitrary(kit, orient):
    """boxes and columns whose size is not known"""
    ctx = kit.ctx
    I = kit.I
    for signs in itertools.product((1, -1), repeat=3):
        kit.fresh()
        k = kit.maker(COMPASS[orient])
        off = kit.vec('FineVector', kit.syms('off'))
        n = kit.syms('size')          # at least 1
        for s in n:
            kit.st.pc = facts_with(kit.st.pc, le(K(1), s), True)
        size = kit.vec('FineVector', [scale(s, g) for s, g in zip(n, signs)])
        key = 'rectangular_prism(any %s)/%s' % (''.join('+' if g > 0 else '-' for g in signs), COMPASS[orient])
        effs = kit.draw(k, 'rectangular_prism', off, size)
        # per axis: direction and number of cells
        ax = [(signs[0], n[0]), (signs[1], n[1])]
        a = TURN[orient](ax[0][0], 0), TURN[orient](0, ax[1][0])
        want = [None, None, (signs[2], n[2])]
        for (dx, dy), (_, cnt) in zip(a, ax):
            if dx:
                want[0] = (dx, cnt)
            else:
                want[1] = (dy, cnt)
        interval(kit, key, orient, effs, want, n)
    for d, v in DIR.items():
        kit.fresh()
        k = kit.maker(COMPASS[orient])
        off = kit.vec('FineVector', kit.syms('off'))
        n = kit.syms('size')
        kit.st.pc = facts_with(kit.st.pc, le(K(1), n[0]), True)
        effs = kit.draw(k, 'column', off, kit.const(d), n[0])
        key = 'column(any, %s)/%s' % (d, COMPASS[orient])
        t = TURN[orient](v[0], v[1]) + (v[2],)
        interval(kit, key, orient, effs, [(c or 1, n[0] if c else K(1)) for c in t], n)


def interval(kit, key, orient, effs, want, n):
    ctx = kit.ctx
    loc = kit.loc('x_' + key.split('(')[0])
    if kit.st.dead:
        ctx.violation(key, loc, 'drawing fails: %s' % dead(kit.st))
        return
    pos = [scale(s, 8) for s in kit.syms('pos')]
    o = kit.syms('off')
    t = [(o[0], o[1]), (sub(K(7), o[1]), o[0]), (sub(K(7), o[0]), sub(K(7), o[1])), (o[1], sub(K(7), o[0]))][orient]
    base = [add(pos[0], t[0]), add(pos[1], t[1]), add(pos[2], o[2])]
    cs = list(cells(effs))
    good = len(cs) == 1 and cs[0][0] == 'set'
    if good:
        what, xyz, data, path, _ = cs[0]
        loops = [p[1] for p in path]
        good = all(p[0] == 'loop' and p[1].kind == 'for' and not p[1].exits for p in path)
    if good:
        used = set()
        for c, b, (dr, cnt) in zip(xyz, base, want):
            d = sub(c, b)
            hit = None
            for i, lp in enumerate(loops):
                for x in idx_terms(lp):
                    for sg in (1, -1):
                        r = sub(d, scale(x, sg))
                        if not mentions(r, loops):
                            hit = hit or (i, sg, r)
            if hit is None:
                good = not mentions(d, loops) and isnum(d) and kv(d) == 0 and isnum(cnt) and kv(cnt) == 1
            else:
                i, sg, r = hit
                used.add(i)
                c2 = loops[i].count
                lo = r if sg > 0 else add(r, sub(K(1), c2))
                wlo = K(0) if dr > 0 else sub(K(1), cnt)
                good = c2 is not None and c2 is cnt and lo is wlo
            if not good:
                break
        good = good and used == set(range(len(loops)))
    if good:
        ctx.ok(key)
        return

    def region(env):
        rs = []
        for dr, cnt in want:
            m = int(number(cnt, env))
            rs.append(range(0, m) if dr > 0 else range(1 - m, 1))
        return set(itertools.product(*rs))
    why = None
    for sz in ((1, 1, 1), (2, 3, 4), (5, 1, 2), (9, 2, 7), (31, 3, 2), (2, 26, 3), (2, 2, 40)):
        why = why or sampled(kit, effs, base, region, [dict(zip(n, sz))])
        if why:
            ctx.violation(key, loc, '%s with sizes %s: %s' % (key, sz, why))
            return
    ctx.undecided(key, loc, 'not summarised to a box')


def mentions(t, loops):
    xs = {x for lp in loops for x in idx_terms(lp)}
    return any(a in xs for a in evalt.atoms(t))


# ---------------------------------------------------------------- what is put there
def contents(ctx):
    ctx.rule('drawing is evaluated with unknown texture, with and without subtract, and with an unknown probability; every covered cell must receive exactly one store of a '
             'new solid leaf cube with that texture on all six faces, or exactly one deletion, and nothing else may change')

    def go():
        kit = Kit(ctx)
        I = kit.I
        loc = kit.loc('x')
        rel = box(2, 1, 2)
        tex = I.sym('tex', 'int')
        runs = [('default', {}, 'set', K(2)), ('tex', {'tex': tex}, 'set', tex), ('no subtract', {'tex': tex, 'subtract': FALSE}, 'set', tex),
                ('subtract', {'tex': tex, 'subtract': TRUE}, 'del', None), ('subtract, default texture', {'subtract': TRUE}, 'del', None),
                ('subtract, probability', {'subtract': TRUE, 'prob': I.sym('prob', 'num')}, 'del', None),
                ('probability 1', {'tex': tex, 'prob': K(1)}, 'set', tex), ('probability above 1', {'tex': tex, 'prob': K(1.1)}, 'set', tex)]
        for orient in range(4):
            for name, kw, what, t in runs:
                certain(kit, loc, orient, name, kw, what, t, rel)
            chance(kit, loc, orient, {'tex': tex}, tex, rel)
            chance(kit, loc, orient, {'tex': tex, 'subtract': FALSE}, tex, rel)
        kit.fresh()
        k = kit.maker('EAST')
        effs = kit.draw(k, 'nonsense', kit.fv(0, 0, 0))
        ctx.require(bool(kit.st.dead), 'unknown shape', loc, 'an unknown shape is accepted')
        return I
    return guarded(ctx, 'contents', go)


def snapshot(kit, *vs):
    return [kit.I.freeze(v, kit.st) for v in vs]


def textured(kit, ref, frozen, tex):
    """why the stored value is not a new solid leaf cube with the texture, None if it is, 'unk' if not known"""
    f = kit.I.freeze(ref, kit.st) if ref.op == 'ref' else frozen
    if f.op != 'obj' or not f.args[0].endswith('objects:cube'):
        return 'unk' if has_top(f) or f.op in ('ite', 'ret') else 'not a cube: %s' % show(f)[:60]
    d = dict(f.args[1])
    t = d.get('texture')
    if t is None or t.op not in ('seq', 'tup'):
        return 'unk'
    ts = [p[1] for p in t.args[1]] if t.op == 'seq' and all(p[0] == 'i' for p in t.args[1]) else list(t.args) if t.op == 'tup' else None
    if ts is None:
        return 'unk'
    if len(ts) != 6:
        return 'it has %d face textures' % len(ts)
    for i, x in enumerate(ts):
        r = evalt.equivalent(x, tex) if x is not tex else (True,)
        if r is None:
            return 'unk'
        if not r[0]:
            return 'face %d has texture %s instead of %s' % (i, show(x)[:40], show(tex))
    if d.get('children') is not NONE:
        return 'unk' if d.get('children') is None or has_top(d['children']) else 'it is not a leaf'
    e = d.get('edges')
    es = [p[1] for p in e.args[1]] if e is not None and e.op == 'seq' and all(p[0] == 'i' for p in e.args[1]) else None
    if es is None:
        return 'unk'
    if any(not isnum(x) for x in es):
        return 'unk'
    if [kv(x) for x in es] != [128] * 12:
        return 'its edges are %s, not those of a full cube' % [kv(x) for x in es]
    o = d.get('octsav')
    if o is None or not isnum(o):
        return 'unk'
    if kv(o) & 7 not in (2, 3):
        return 'its stored kind is %s, not a solid or ordinary cube' % show(o)
    fs = d.get('faces')
    if fs is not None and fs.op == 'seq' and any(p[0] == 'i' and p[1].op == 'enumm' and p[1].args[1] != 'F_SOLID' for p in fs.args[1]):
        return 'its faces are not solid'
    return None


def places(kit, orient, rel):
    pos = [scale(s, 8) for s in kit.syms('pos')]
    o = kit.syms('off')
    t = [(o[0], o[1]), (sub(K(7), o[1]), o[0]), (sub(K(7), o[0]), sub(K(7), o[1])), (o[1], sub(K(7), o[0]))][orient]
    base = [add(pos[0], t[0]), add(pos[1], t[1]), add(pos[2], o[2])]
    return {tuple(add(b, K(c)) for b, c in zip(base, TURN[orient](x, y) + (z,))) for x, y, z in rel}


def start(kit, orient):
    kit.fresh()
    k = kit.maker(COMPASS[orient])
    off = kit.vec('FineVector', kit.syms('off'))
    size = kit.fv(2, 1, 2)
    return k, off, size, snapshot(kit, k, off, size, kit.w)


def finished(kit, key, loc, k, off, size, before):
    ctx = kit.ctx
    if kit.st.dead:
        ctx.violation(key, loc, 'drawing fails: %s' % dead(kit.st))
        return False
    after = snapshot(kit, k, off, size, kit.w)
    for n, a, b in zip(('the room', 'the offset', 'the size', 'the voxel world itself'), before, after):
        if a is not b:
            ctx.violation(key, loc, 'drawing changes %s' % n)
            return False
    return True


def certain(kit, loc, orient, name, kw, what, tex, rel):
    ctx = kit.ctx
    key = '%s/%s' % (name, COMPASS[orient])
    k, off, size, before = start(kit, orient)
    effs = kit.draw(k, 'rectangular_prism', off, size, **kw)
    if not finished(kit, key, loc, k, off, size, before):
        return
    want = places(kit, orient, rel)
    seen, oids = [], []
    for op, xyz, data, path, cl in cells(effs):
        if path:
            c = guard(path)
            when = None if c is None else outcomes(c)
            if when is None:
                ctx.undecided(key, cl, 'store under a condition')
                return
            if not when[True]:
                continue
            if op != what:
                ctx.violation(key, cl, 'with %s a cell is %s when probability and random number are among %s' % (name, 'deleted' if op == 'del' else 'stored', when[True][0]))
                return
            if when[False]:
                ctx.violation(key, cl, 'with %s a cell is not %s when probability and random number are among %s' % (name, 'deleted' if op != 'del' else 'stored', when[False][0]))
                return
        if op != what:
            ctx.violation(key, cl, 'with %s a cell is %s' % (name, 'deleted' if op == 'del' else 'stored'))
            return
        seen.append(tuple(xyz))
        if op == 'set':
            why = textured(kit, data[0], data[1], tex)
            if why == 'unk':
                ctx.undecided(key, cl, 'stored value %s' % show(data[1])[:80])
                return
            if why:
                ctx.violation(key, cl, 'with %s, the cube stored is wrong: %s' % (name, why))
                return
            oids.append(data[0])
    if list(tops(effs)):
        ctx.undecided(key, loc, 'not analysable')
        return
    if set(seen) != want or len(seen) != len(want):
        ctx.violation(key, loc, 'with %s, %d of %d cells are %s' % (name, len(set(seen) & want), len(want), 'stored' if what == 'set' else 'deleted'))
        return
    ctx.require(len(set(oids)) == len(oids), key, loc, 'several cells share one cube')
    ctx.stat('cells_compared', len(seen))


def guard(path):
    if any(p[0] != 'if' for p in path):
        return None
    return and_(*[p[1] if p[2] else not_(p[1]) for p in path])


def outcomes(c):
    """random numbers (and probabilities) for which a condition is true and false, None if it depends on more"""
    rs = sorted({a for a in evalt.atoms(c) if a in set(draws(c)) or a.op == 'sym'}, key=str)
    out = {True: [], False: []}
    if any(a not in rs for a in evalt.atoms(c)) or len(rs) > 4:
        return None
    for vs in itertools.product((0.0001, 0.3, 0.5, 0.7, 0.999), repeat=len(rs)):
        try:
            out[bool(evalt.ev(c, dict(zip(rs, vs))))].append(', '.join(map(str, vs)))
        except evalt.Unknown:
            return None
    return out


def draws(t):
    return [a for a in evalt.atoms(t) if a.op == 'ret' and a.args[0].op == 'ext' and a.args[0].args[0] in ('random.random', 'random.uniform')]


def chance(kit, loc, orient, kw, tex, rel):
    ctx = kit.ctx
    prob = kit.I.sym('prob', 'num')
    key = 'probability%s/%s' % (', no subtract' if 'subtract' in kw else '', COMPASS[orient])
    k, off, size, before = start(kit, orient)
    effs = kit.draw(k, 'rectangular_prism', off, size, prob=prob, **kw)
    if not finished(kit, key, loc, k, off, size, before):
        return
    ops = {}
    for op, xyz, data, path, cl in cells(effs):
        if any(p[0] != 'if' for p in path):
            ctx.undecided(key, cl, 'store in %s' % path[0][0])
            return
        c = guard(path)
        ops.setdefault(tuple(xyz), []).append((op, c, cl))
        if op == 'set':
            why = textured(kit, data[0], data[1], tex)
            if why == 'unk':
                ctx.undecided(key, cl, 'stored value')
                return
            if why:
                ctx.violation(key, cl, 'the cube stored is wrong: %s' % why)
                return
    want = places(kit, orient, rel)
    if set(ops) != want:
        ctx.violation(key, loc, '%d of %d cells are drawn or cleared' % (len(set(ops) & want), len(want)))
        return
    rnd = random.Random(7)
    conds = {}
    for xyz, os_ in ops.items():
        rs = sorted({r for _, c, _ in os_ for r in draws(c)}, key=str)
        for op, c, cl in os_:
            if any(a is not prob and a not in rs for a in evalt.atoms(c)):
                ctx.undecided(key, cl, 'condition %s' % show(c)[:120])
                return
        conds[xyz] = rs

    def result(xyz, env):
        try:
            done = {op for op, c, _ in ops[xyz] if evalt.ev(c, env)}
        except evalt.Unknown as e:
            raise Unknown(str(e))
        return next(iter(done)) if len(done) == 1 else 'both' if done else 'none'
    try:
        for p in (0, 0.1, 0.25, 0.5, 0.9, 0.99, 1, 1.1, 3):
            used = {}
            for xyz in sorted(ops, key=str):
                rs = conds[xyz]
                matters = set()
                for n in range(40 if len(rs) > 1 else 0):
                    env = {r: rnd.random() for r in rs}
                    env[prob] = p
                    w = result(xyz, env)
                    for r in rs:
                        for x in (0.0001, 0.999):
                            if result(xyz, {**env, r: x}) != w:
                                matters.add(r)
                if len(rs) == 1 and p < 1:
                    matters = set(rs)
                for r in matters:
                    if r in used:
                        ctx.violation(key, ops[xyz][0][2], 'with probability %s two cells depend on the same random number' % p)
                        return
                    used[r] = xyz
                if len(matters) > 1:
                    ctx.undecided(key, loc, 'several random numbers per cell')
                    return
                for x in (0.0001, 0.05, 0.2, 0.3, 0.45, 0.6, 0.89, 0.95, 0.999):
                    env = {r: x if r in matters else rnd.random() for r in rs}
                    env[prob] = p
                    got, w = result(xyz, env), 'set' if x < p else 'del'
                    if got != w:
                        ctx.violation(key, ops[xyz][0][2], 'with probability %s and random number %s a cell is %s' % (p, x, {'set': 'drawn', 'del': 'cleared', 'none': 'neither drawn nor cleared', 'both': 'drawn and cleared'}[got]))
                        return
    except Unknown as e:
        ctx.undecided(key, loc, 'condition uses %s' % e)
        return
    ctx.ok(key)
    ctx.stat('cells_compared', len(ops))
