"""Cubes of the game engine: how they are made, their faces and corners."""
from .common import *
from .. import evalt
from ..eqv import judge
from ..out import GiveUp
from .entities import show_dead
from .output import items

O = 'redeclipse.objects:'
LOC = 'redeclipse/objects.py'
EMPTY, SOLID = 0, 0x80808080
# the corners of each face in the order of the engine, as sides (0 low, 1 high) of x, y and z
FACES = {
    0: ((0, 1, 1), (0, 1, 0), (0, 0, 0), (0, 0, 1)),
    1: ((1, 1, 1), (1, 0, 1), (1, 0, 0), (1, 1, 0)),
    2: ((1, 0, 1), (0, 0, 1), (0, 0, 0), (1, 0, 0)),
    3: ((0, 1, 0), (0, 1, 1), (1, 1, 1), (1, 1, 0)),
    4: ((0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 0, 0)),
    5: ((0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)),
}


def corner(edges, p):
    """the place of a corner: each coordinate from the edge along it, low half for the low end and high half for the high end"""
    x, y, z = p
    e = (edges[2 * z + y], edges[4 + 2 * x + z], edges[8 + 2 * y + x])
    return tuple(v >> 4 if s else v & 15 for v, s in zip(e, p))


def face(v, I, st):
    """the number of a face value, an int or a member of Faces"""
    if v.op in ('enum', 'enumm', 'obj', 'ref'):
        v = I.getattr_(v, 'value', st, None)
    return v


class Bench:
    def __init__(self, ctx):
        self.ctx = ctx
        self.I = engine(ctx, {'max_steps': 5000000}, ('redeclipse', 'redeclipse.objects', 'redeclipse.enums'))
        self.cls = self.I.lookup(O + 'cube')
        self.st = self.I.state()

    def call(self, name, *a, **kw):
        v = self.I.call(self.I.lookup(O + name), list(a), kw, self.st, None)
        return self.alive(v, name)

    def m(self, o, name, *a, **kw):
        return self.alive(self.I.call(self.I.getattr_(o, name, self.st, None), list(a), kw, self.st, None), name)

    def alive(self, v, name):
        if self.st.dead:
            t = show_dead(self.st)
            self.st = self.I.state()
            raise Failed('%s fails: %s' % (name, t))
        return v

    def at(self, o, k):
        v = self.I.getattr_(o, k, self.st, None, quiet=True)
        if v is None:
            raise Failed('there is no %s' % k)
        return v

    def list(self, v, what):
        l = items(self.st, v)
        if l is None:
            raise GiveUp('%s is not known: %s' % (what, show(v)[:80]))
        return l


class Failed(Exception):
    pass


def part(ctx, key, fn, *a):
    try:
        bad = fn(*a)
    except Failed as e:
        bad = str(e)
    except (GiveUp, evalt.Unknown) as e:
        return ctx.undecided(key, LOC, str(e)[:200])
    ctx.require(bad is None, key, LOC, '%s: %s' % (key, bad))


def cubes(ctx):
    ctx.rule('the functions that make cubes, their fills and the corners of their faces are evaluated; attributes and corners are compared with the layout of the engine')

    def go():
        B = Bench(ctx)
        part(ctx, 'newcube', newcube, B)
        for how in ('int', 'list'):
            part(ctx, 'newtexcube (%s)' % how, newtex, B, how)
        part(ctx, 'newcubes', eight, B)
        part(ctx, 'fill', fill, B)
        part(ctx, 'ids', ids, B)
        part(ctx, 'own parts', own, B)
        for f in range(6):
            part(ctx, 'corners of face %d' % f, corners, B, f)
        for n in range(256):
            part(ctx, 'totalverts(%d)' % n, verts, B, n)
        for n in range(6):
            part(ctx, 'orientation %d' % n, orient, B, n)
        part(ctx, 'newcubeext', ext, B)
        return B.I
    return guarded(ctx, 'cubes', go)


def filled(B, c, want):
    l = B.list(B.at(c, 'faces'), 'faces')
    got = [face(x, B.I, B.st) for x in l]
    if len(got) != 3 or any(not isnum(x) or kv(x) != want for x in got):
        return 'the faces are %s' % [show(x)[:40] for x in l]
    return None


def newcube(B):
    for kw, want in (({}, EMPTY), ({'face': B.I.lookup('redeclipse.enums:Faces.F_SOLID')}, SOLID), ({'face': B.I.lookup('redeclipse.enums:Faces.F_EMPTY')}, EMPTY)):
        c = B.call('cube.newcube', **kw)
        bad = filled(B, c, want)
        if bad:
            return bad
        if B.at(c, 'ext') is not NONE:
            return 'a new cube has an extension'
        ch = B.at(c, 'children')
        if ch is not NONE and B.list(ch, 'children'):
            return 'a new cube has children'
        t = [x for x in B.list(B.at(c, 'texture'), 'texture')]
        d = B.I.lookup('redeclipse.enums:TextNum.DEFAULT_GEOM')
        if len(t) != 6 or any(x is not d and not (isnum(x) and isnum(face(d, B.I, B.st)) and kv(x) == kv(face(d, B.I, B.st))) for x in t):
            return 'the textures are %s' % [show(x)[:30] for x in t]
    return None


def newtex(B, how):
    I, st = B.I, B.st
    if how == 'int':
        t = I.sym('tex', 'int')
        want = [t] * 6
        arg = t
    else:
        want = [I.sym('tex%d' % i, 'int') for i in range(6)]
        arg = st.alloc(Seq('list', tuple(('i', x) for x in want)))
    c = B.call('cube.newtexcube', arg)
    bad = filled(B, c, SOLID)
    if bad:
        return bad
    if B.list(B.at(c, 'texture'), 'texture') != want:
        return 'the textures are %s' % [show(x)[:30] for x in B.list(B.at(c, 'texture'), 'texture')]
    for k, w in (('octsav', 35), ('surfmask', 63)):
        v = B.at(c, k)
        if not isnum(v) or kv(v) != w:
            return '%s is %s instead of %d' % (k, show(v)[:40], w)
    s = B.list(B.at(B.at(c, 'ext'), 'surfaces'), 'surfaces')
    if len(s) != 6 or len({x for x in s}) != 6:
        return 'it has %d surfaces of its own' % len({x for x in s})
    for x in s:
        got = [kv(y) if isnum(y) else None for y in B.list(B.at(x, 'lmid'), 'lmid') + [B.at(x, 'verts'), B.at(x, 'numverts')]]
        if got != [2, 0, 0, 32]:
            return 'a surface is %s' % got
    return None


def eight(B):
    for kw, want in (({}, EMPTY), ({'face': B.I.lookup('redeclipse.enums:Faces.F_SOLID')}, SOLID)):
        l = B.list(B.call('cube.newcubes', **kw), 'newcubes')
        if len(l) != 8 or len(set(l)) != 8:
            return '%d different cubes' % len(set(l))
        for c in l:
            bad = filled(B, c, want)
            if bad:
                return bad
    return None


def fill(B):
    c = B.call('cube.newcube')
    for name, want in (('set_solid', SOLID), ('set_empty', EMPTY), ('set_solid', SOLID)):
        B.m(c, name)
        bad = filled(B, c, want)
        if bad:
            return 'after %s %s' % (name, bad)
    B.call('cube.emptyfaces', c)
    bad = filled(B, c, EMPTY)
    return bad and 'after emptyfaces %s' % bad


def ids(B):
    l = [B.call('cube.newcube'), B.call('cube.newtexcube', K(4))] + B.list(B.call('cube.newcubes'), 'newcubes') + [B.call('cube.newcube')]
    n = [B.at(c, 'cube_id') for c in l]
    if not all(isnum(x) for x in n):
        raise GiveUp('ids %s' % [show(x)[:30] for x in n])
    n = [kv(x) for x in n]
    return None if sorted(set(n)) == n else 'the cubes have the ids %s' % n


def own(B):
    """changing one cube changes no other"""
    for make in (lambda: B.call('cube.newcube'), lambda: B.call('cube.newtexcube', K(4))):
        a, b = make(), make()
        for k in ('faces', 'texture', 'edges'):
            x, y = B.at(a, k), B.at(b, k)
            o = B.st.obj(x) if x.op == 'ref' else None
            if x is y and o is not None and isinstance(o, Seq) and o.kind == 'list':
                return 'two cubes have the same list as %s' % k
        x, y = B.at(a, 'ext'), B.at(b, 'ext')
        if x is y and x is not NONE:
            return 'two cubes have the same extension'
    return None


def corners(B, f):
    I, st = B.I, B.st
    tables = [[16 * ((3 * i + k) % 9) + (5 * i + 2 * k) % 8 for i in range(12)] for k in range(4)] + [[0x80] * 12, [0] * 12]
    for e in tables:
        c = B.call('cube.newcube')
        I.setattr_(c, 'edges', st.alloc(Seq('list', tuple(('i', K(x)) for x in e))), st, None)
        l = B.list(B.m(c, 'genfaceverts', K(f)), 'corners')
        if len(l) != 4:
            return '%d corners' % len(l)
        got = []
        for v in l:
            p = [B.m(v, k) for k in 'XYZ']
            if not all(isnum(x) for x in p):
                raise GiveUp('corner %s' % [show(x)[:40] for x in p])
            got.append(tuple(kv(x) for x in p))
        want = [corner(e, p) for p in FACES[f]]
        if got != want:
            return 'they are %s instead of %s for edges %s' % (got, want, e)
    return None


def verts(B, n):
    s = B.call('SurfaceInfo', K(2), K(0), K(7), K(n))
    v = B.m(s, 'totalverts')
    want = (n & 15) * (2 if n & 128 else 1)
    if v.op != 'k':
        raise GiveUp(show(v)[:80])
    return None if kv(v) == want else 'it is %s instead of %d' % (kv(v), want)


def orient(B, n):
    for name, want in (('dimension', n // 2), ('dimcoord', n % 2), ('opposite', n + 1 if n % 2 == 0 else n - 1)):
        v = B.call(name, K(n))
        if v.op != 'k':
            raise GiveUp(show(v)[:80])
        if kv(v) != want:
            return '%s is %s instead of %d' % (name, kv(v), want)
    return None


def ext(B):
    c = B.call('cube.newcube')
    a = B.m(c, 'newcubeext', K(5), FALSE)
    if B.at(c, 'ext') is not a or not isnum(B.at(a, 'maxverts')) or kv(B.at(a, 'maxverts')) != 5:
        return 'it is not kept with its number of vertices'
    if B.m(c, 'newcubeext', K(3), FALSE) is not a or B.m(c, 'newcubeext', K(5), FALSE) is not a:
        return 'one with enough room is replaced'
    b = B.m(c, 'newcubeext', K(6), FALSE)
    if b is a or B.at(c, 'ext') is not b or kv(B.at(b, 'maxverts')) != 6:
        return 'one without enough room is kept'
    return None
