"""Rooms: the cells they occupy, their doors, what they draw and what they add to the map."""
import ast
import itertools
import os
import struct
from fractions import Fraction
from .draw import *
from . import kit as kits
from .. import evalt

ROOM = 'redeclipse.prefabs:Room'
VOXROOM = 'redeclipse.prefabs.magica:MagicaRoom'
READER = 'redeclipse.magicavoxel.reader:Magicavoxel'
X = KIT + '.x'
LIGHTS = 'redeclipse.lighting:'


# ---------------------------------------------------------------- voxel models (data files)
def vox_model(path):
    """size, voxels and colours of a MagicaVoxel file; written from the published description of the format"""
    with open(path, 'rb') as h:
        data = h.read()
    if data[:4] != b'VOX ':
        raise ValueError('not a voxel model')
    out = {'voxels': [], 'palette': None, 'size': None}
    at = 8
    _, n, kids = struct.unpack_from('<4sii', data, at)
    at += 12 + n
    while at + 12 <= len(data):
        tag, n, kids = struct.unpack_from('<4sii', data, at)
        at += 12
        if tag == b'SIZE':
            out['size'] = struct.unpack_from('<iii', data, at)
        elif tag == b'XYZI' and not out['voxels']:
            cnt = struct.unpack_from('<i', data, at)[0]
            out['voxels'] = [struct.unpack_from('BBBB', data, at + 4 + 4 * i) for i in range(cnt)]
        elif tag == b'RGBA':
            out['palette'] = [tuple(data[at + 4 * i:at + 4 * i + 4]) for i in range(n // 4)]
        at += n
    return out


class Rooms:
    def __init__(self, ctx, draw=False, more=None):
        self.ctx = ctx
        self.w = None
        intr = {**{k: self.only(h) for k, h in world_intrinsics().items()}, READER + '.from_file': self.model}
        if draw:
            intr[X] = self.drawn
        intr.update(more or {})
        self.current = None
        self.tops = {}
        self.shift = None
        opaque = {LIGHTS + 'PositionBasedLightManager.hue': ('tup', ('int', 'int', 'int')),
                  LIGHTS + 'LightManager.hue': ('tup', ('int', 'int', 'int'))}
        self.I = engine(ctx, {'intrinsics': intr, 'opaque': opaque, 'max_steps': 200000000, 'unroll': 20},
                        ('redeclipse', 'redeclipse.vector', 'redeclipse.vector.orientations', 'redeclipse.prefabs', 'redeclipse.voxel'))
        for m in self.I.p.modules.values():        # which texture is taken does not matter here
            if m.name.startswith('redeclipse.textures'):
                for c in ast.walk(m.tree):
                    if isinstance(c, ast.ClassDef):
                        self.I.opaque.update({'%s:%s.%s' % (m.name, c.name, f): 'int' for f in ('get', 'get_c', 'get_colour', 'random')})
        self.mods = [m for m in sorted(self.I.p.modules) if m == 'redeclipse.prefabs' or m.startswith('redeclipse.prefabs.')]
        for m in self.mods:
            self.I.load(m)
        self.base = self.I.lookup(ROOM).args[0]
        self.voxbase = self.I.lookup(VOXROOM).args[0]
        self.models = {}

    # -- stand-ins
    def only(self, h):
        return lambda I, args, kw, st, node: h(I, args, kw, st, node) if args and args[0] is self.w else None

    def model(self, I, args, kw, st, node):
        """the model that the reader returns for a room: the corner voxels of every cell it touches"""
        path = kv(args[-1]) if args and iskt(args[-1], 'str') else None
        v = self.models.get(self.current)
        if v is None:
            return None
        rows = [(x, y, z, i % 2) for i, (x, y, z, _) in enumerate(v)]
        vs = [('i', st.alloc(Inst(None, {'x': K(x), 'y': K(y), 'z': K(z), 'c': K(c)}, where='voxel'))) for x, y, z, c in rows]
        cols = [('i', st.alloc(Inst(None, {k: K(c) for k, c in zip('rgba', col)}, where='colour'))) for col in ((0, 0, 0, 255), (255, 0, 0, 255))]
        mv = st.alloc(Inst(None, {'voxels': st.alloc(Seq('list', tuple(vs))), 'num_voxels': K(len(vs))}, where='voxels'))
        pal = st.alloc(Inst(None, {'colours': st.alloc(Seq('list', tuple(cols)))}, where='palette'))
        return st.alloc(Inst(None, {'model_voxels': mv, 'palette': pal}, where='model'))

    def drawn(self, I, args, kw, st, node):
        if len(args) < 3:
            return None
        pos, ori = I.getattr_(args[0], 'pos', st, None), I.getattr_(args[0], 'orientation', st, None)
        st.emit('draw', (I.freeze(args[1], st), args[2], mk('tup', *[I.freeze(a, st) for a in args[3:]]),
                         mk('tup', *[mk('tup', K(k), I.freeze(v, st)) for k, v in sorted(kw.items())]), I.freeze(pos, st), I.freeze(ori, st)), I.loc(node))
        return NONE

    # -- inventory
    def classes(self):
        """(class, number of flags) of every room that can be built"""
        seen = []
        for m in self.mods:
            ns = self.I.load_state.obj(Ref(self.I.p.modules[m].oid))
            for v in ns.fields.values():
                if v.op == 'cls' and self.base in v.args[0].mro and v.args[0].module.name == m and v.args[0] not in [c for c, _, _ in seen]:
                    st = self.I.state()
                    f = self.I.getattr_(v, '_randflags', st, None, quiet=True)
                    n = 0
                    if f is not None and f.op == 'tup':
                        n = len(f.args)
                    vox = None
                    if self.voxbase in v.args[0].mro:
                        vox = self.I.getattr_(v, 'vox_file', st, None, quiet=True)
                        if vox is None or vox is NONE:
                            continue
                    seen.append((v.args[0], n, vox))
        return seen

    def voxels(self, ci, vox):
        """corner voxels per cell of the model of a class, None when the model is not known"""
        if ci in self.models:
            return self.models[ci]
        name = kv(vox) if iskt(vox, 'str') else None
        if name is None:
            self.ctx.undecided('model/' + ci.name, ci.qual, 'model file name is not known')
            return None
        d = os.path.dirname(ci.module.path)
        path = os.path.join(d, os.path.basename(name))
        if not os.path.exists(path):
            self.ctx.violation('model/' + ci.name, '%s:%d' % (ci.module.rel, ci.node.lineno), 'the model file %s of room %s does not exist' % (os.path.basename(name), ci.name))
            self.models[ci] = None
            return None
        m = vox_model(path)
        st = self.I.state()
        b = self.I.getattr_(mk('cls', ci), 'boundary_additions', st, None, quiet=True)
        off = [0, 0] if self.shift is None else [self.shift.get('WEST', 0), self.shift.get('SOUTH', 0)]
        if b is not None and self.shift is None:
            for i, k in enumerate(('WEST', 'SOUTH')):
                v = self.I.call(self.I.getattr_(b, 'get', st, None), [K(k), K(0)], {}, st, None)
                off[i] = kv(v) if isnum(v) else 0
        cells = {}
        for x, y, z, c in m['voxels']:
            cells.setdefault(((x + off[0]) // 8, (y + off[1]) // 8, z // 8), []).append((x, y, z))
        rows = []
        self.tops[ci] = {q for q, vs in cells.items() if any(v[2] % 8 == 7 for v in vs)}
        for q in sorted(cells):
            vs = sorted(cells[q])
            for v in dict.fromkeys((vs[0], vs[-1])):
                rows.append(v + (1,))
        self.models[ci] = rows
        self.ctx.stat('model_voxels', len(m['voxels']))
        return rows

    def build(self, ci, vox, n, orient, flags):
        I = self.I
        self.st = st = I.state()
        self.current = ci
        if vox is not None and self.voxels(ci, vox) is None:
            return None
        self.p = [I.sym('pos' + k, 'int') for k in 'xyz']
        pos = I.call(I.lookup(V + 'CoarseVector'), list(self.p), {}, st, None)
        kw = {'pos': pos, 'orientation': I.lookup(O + COMPASS[orient])}
        if self.shift is not None:
            I.setattr_(mk('cls', ci), 'boundary_additions', st.alloc(Dic(tuple(('i', (K(k), K(v))) for k, v in sorted(self.shift.items())))), st, None)
        if n:
            kw['randflags'] = st.alloc(Seq('list', tuple(('i', TRUE if f else FALSE) for f in flags)))
        return I.call(mk('cls', ci), [], kw, st, None)

    # -- reading results
    def place(self, v):
        """(unit, offset from the position in fine cells) of a vector, None if not constant relative to it"""
        st = self.st
        o = st.obj(v)
        if o is None or getattr(o, 'cls', None) is None:
            return None
        u = {'CoarseVector': 8, 'FineVector': 1}.get(o.cls.name)
        if u is None:
            return None
        out = []
        for k, p in zip('xyz', self.p):
            c = sub(scale(self.I.getattr_(v, k, st, None), u), scale(p, 8))
            if not isnum(c):
                return None
            out.append(kv(c))
        return tuple(out)

    def direction(self, v):
        st = self.st
        o = st.obj(v)
        if o is None or getattr(o, 'cls', None) is None:
            return None
        out = [self.I.getattr_(v, k, st, None) for k in 'xyz']
        if not all(isnum(c) for c in out):
            return None
        return tuple(kv(c) for c in out)

    def items(self, v):
        o = self.st.obj(v)
        if isinstance(o, Seq) and all(p[0] == 'i' for p in o.pieces):
            return [p[1] for p in o.pieces]
        if v.op == 'tup':
            return list(v.args)
        return None

    def footprint(self, r):
        """positions and doors of a room as offsets in cells, or the reason why they are not known"""
        I, st = self.I, self.st
        ps = self.items(I.call(I.getattr_(r, 'get_positions', st, None), [], {}, st, None))
        if st.dead:
            return 'fails: %s' % kits.dead(st)
        if ps is None:
            return None
        cells = []
        for p in ps:
            c = self.place(p)
            if c is None:
                return None
            if any(x % 8 for x in c):
                return 'position %s is no whole cell' % (tuple(x / 8 for x in c),)
            cells.append(tuple(int(x // 8) for x in c))
        ds = self.items(I.call(I.getattr_(r, 'get_doorways', st, None), [], {}, st, None))
        if st.dead:
            return 'fails: %s' % kits.dead(st)
        if ds is None:
            return None
        doors = []
        for d in ds:
            o = I.B.getitem(I, d, K('offset'), st, None)
            w = I.B.getitem(I, d, K('orientation'), st, None)
            if st.dead:
                return 'fails: %s' % kits.dead(st)
            c, w = self.place(o), self.direction(w)
            if c is None or w is None:
                return None
            if any(x % 8 for x in c):
                return 'door %s is no whole cell' % (tuple(x / 8 for x in c),)
            doors.append((tuple(int(x // 8) for x in c), tuple(int(x) if x == int(x) else x for x in w)))
        return cells, doors


def turned(c, k):
    return TURN[k](c[0], c[1]) + tuple(c[2:])


def variants(n):
    for i in range(2 ** n):
        yield tuple(not i >> (n - 1 - j) & 1 for j in range(n))


def label(ci, orient, flags):
    return '%s/%s%s' % (ci.name, COMPASS[orient], '/' + ''.join('01'[f] for f in flags) if flags else '')


def where(ci):
    return '%s:%d' % (ci.module.rel, ci.node.lineno)


def method_of(R, r, ci, *names):
    """(location, qualified name) of the first of the methods that a room has"""
    for n in names:
        m = R.I.find_method(r, n, R.st)
        if m is not None and m.op == 'bm' and m.args[1].op == 'fn':
            f = m.args[1].args[0]
            return f.loc, f.qual
    return where(ci), None


# ---------------------------------------------------------------- doors
def doors(ctx):
    ctx.rule('every room class is evaluated at an unknown position in every orientation and with all combinations of its flags; its cells and doors are compared as offsets from the position')
    ctx.assumption('cells of rooms made from voxel models are computed from the corner voxels of every cell of the model file next to the module')

    def go():
        R = Rooms(ctx)
        todo = R.classes()
        ctx.stat('room_classes', len(todo))
        plan = [(ci, n, vox, flags, None) for ci, n, vox in todo for flags in variants(n)]
        for sh in ({'WEST': 3}, {'SOUTH': 2}, {'WEST': 5, 'SOUTH': 7}):     # the model of one class with additions at its boundaries
            plan += [(ci, n, vox, (True,) * n, sh) for ci, n, vox in [c for c in todo if c[2] is not None and R.voxels(c[0], c[2])][:1]]
        for ci, n, vox, flags, R.shift in plan:
                if R.shift:
                    R.models.clear()
                east = None
                for orient in range(4):
                    key = label(ci, orient, flags) + (' shifted by %s' % R.shift if R.shift else '')
                    r = R.build(ci, vox, n, orient, flags)
                    if r is None:
                        break
                    if R.st.dead:
                        ctx.violation(key, where(ci), 'building the room fails: %s' % kits.dead(R.st))
                        break
                    one = R.footprint(r)
                    if isinstance(one, tuple):
                        again = R.footprint(r)
                        if isinstance(again, tuple) and again != one:
                            ctx.violation(key, where(ci), 'asked a second time, the room has other cells or doors')
                            break
                    if one is None:
                        ctx.undecided(key, where(ci), 'cells or doors are not constant')
                        break
                    if isinstance(one, str):
                        ctx.violation(key, where(ci), one)
                        break
                    ctx.stat('rooms_compared')
                    why = east and bad_turn(one, east, orient)
                    if not R.shift:
                        why = bad(one, {turned(c, orient) for c in R.tops.get(ci, ())}) or why
                    if orient == 0:
                        east = one
                    ctx.require(not why, key, where(ci), why or '')
        return R.I
    return guarded(ctx, 'rooms', go)


def bad(room, tops):
    cells, drs = room
    if not cells:
        return 'the room occupies nothing'
    if len(set(cells)) != len(cells):
        return 'cell %s is listed twice' % ([c for c in cells if cells.count(c) > 1][0],)
    if not drs:
        return 'the room has no door'
    if len(set(drs)) != len(drs):
        return 'door %s is listed twice' % ([d for d in drs if drs.count(d) > 1][0],)
    for at, w in drs:
        if w not in ((1, 0, 0), (0, 1, 0), (-1, 0, 0), (0, -1, 0)):
            return 'door %s faces %s, no compass direction' % (at, w)
        if at in cells:
            return 'door %s towards %s opens into the room itself' % (at, w)
        b = tuple(a - d for a, d in zip(at, w))
        if b not in cells and (b[0], b[1], b[2] - 1) not in tops:
            return 'door %s towards %s is not at the edge of the room: cell %s does not belong to it' % (at, w, b)
    return None


def bad_turn(room, east, k):
    for name, a, b in (('cells', set(room[0]), {turned(c, k) for c in east[0]}), ('doors', set(room[1]), {(turned(c, k), turned(w, k)) for c, w in east[1]})):
        if a != b:
            x = sorted(a ^ b)[0]
            return 'turned towards %s, the %s are not those of the eastward room turned: %s' % (COMPASS[k], name, x)
    return None


# ---------------------------------------------------------------- drawing
class Cover:
    """cells covered by one construction, as offsets from the first cell of the room (its definition is the subject of K01)"""
    def __init__(self, ctx):
        self.kit = kits.Kit(ctx, plain_cubes=True)
        self.memo = {}

    def vec(self, v):
        if isinstance(v, tuple):
            return self.kit.vec(v[0], [K(c) for c in v[1:]])
        return K(v)

    def __call__(self, orient, shape, args, kw):
        key = (orient, shape, args, kw)
        if key not in self.memo:
            env = {}
            first = None
            if args and isinstance(args[0], tuple):
                first = args[0][0]
                env = dict(zip(self.kit.syms('off'), args[0][1:]))
            s = self.summary(orient, shape, first, args[1:] if first else args, kw)
            if isinstance(s, str):
                self.memo[key] = s
            else:
                out = []
                kits.replay(s, env, out)
                self.memo[key] = frozenset(c[1:] for c in out)
        return self.memo[key]

    def summary(self, orient, shape, first, args, kw):
        """effects of a construction at an unknown offset"""
        key = (orient, shape, first, args, kw, 'summary')
        if key not in self.memo:
            kit = self.kit
            kit.fresh()
            k = kit.I.call(kit.I.lookup(KIT), [], {}, kit.st, None)
            kit.I.setattr_(k, 'pos', kit.vec('CoarseVector', [K(0)] * 3), kit.st, None)
            kit.I.setattr_(k, 'orientation', kit.const(COMPASS[orient]), kit.st, None)
            off = [kit.vec(first, kit.syms('off'))] if first else []
            effs = kit.draw(k, shape, *off, *[self.vec(a) for a in args], **{n: self.vec(v) for n, v in kw})
            self.memo[key] = 'fails: %s' % kits.dead(kit.st) if kit.st.dead else effs
            self.sums = getattr(self, 'sums', 0) + 1
        return self.memo[key]


def vector(t, env):
    """a frozen vector or number under a valuation"""
    if t.op == 'obj' and t.args[0].split(':')[-1] in ('CoarseVector', 'FineVector'):
        d = dict(t.args[1])
        return (t.args[0].split(':')[-1],) + tuple(whole(kits.number(d[k], env)) for k in 'xyz')
    if t.op == 'k':
        return kv(t)
    return whole(kits.number(t, env))


def whole(x):
    return int(x) if isinstance(x, float) and x == int(x) else x


def dice(t):
    """outcomes of the random numbers that a term depends on: [(term, values)]"""
    out = []
    ts, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.op == 'obj':
            todo.extend(v for _, v in x.args[1])
        elif x.op == 'tup':
            todo.extend(x.args)
        else:
            ts |= set(evalt.atoms(x))
    for a in sorted(ts, key=str):
        if a.op == 'ret' and a.args[0].op == 'ext' and a.args[0].args[0] == 'random.randint' and all(isnum(x) for x in a.args[1]) and len(a.args[1]) == 2:
            out.append((a, list(range(int(kv(a.args[1][0])), int(kv(a.args[1][1])) + 1))))
        elif a.op == 'ret' and a.args[0].op == 'ext' and a.args[0].args[0] == 'random.randrange' and all(isnum(x) for x in a.args[1]):
            out.append((a, list(range(*[int(kv(x)) for x in a.args[1]]))))
        elif a.op == 'idx':
            pass
        else:
            raise kits.Unknown('unknown quantity %s' % show(a)[:80])
    return out


def events(effs, env, sink):
    """drawings and stores of a rendering with loop counters enumerated; both branches of undecided conditions"""
    for e in effs:
        if e.kind in ('draw', 'cell', 'call', 'raise', 'top', 'mut', 'setattr', 'delattr'):
            sink(e, env)
        elif e.kind == 'if':
            try:
                v = evalt.ev(e.data[0], env)
            except evalt.Unknown:
                v = None
            if v is None or v:
                events(e.data[1], env, sink)
            if v is None or not v:
                events(e.data[2], env, sink)
        elif e.kind == 'loop':
            c = e.data[0].count
            if c is None:
                raise kits.Unknown('loop of unknown length')
            for i in range(max(0, int(kits.number(c, env)))):
                x = dict(env)
                for d in kits.idx_terms(e.data[0]):
                    x[d] = i
                events(e.data[1], x, sink)
        elif e.kind == 'try':
            raise kits.Unknown('exception handling')


class Drawing:
    """the cells a rendering touches"""
    def __init__(self, R, cover, orient):
        self.R, self.cover, self.orient = R, cover, orient
        self.cells = {}
        self.voxels = {}
        self.fail = None
        self.odd = []

    def env(self, env):
        x = dict(env)
        for p in self.R.p:
            x[p] = 0
        return x

    def touch(self, c, loc, what):
        self.voxels.setdefault(c, (loc, what))
        self.cells.setdefault(tuple(x // 8 for x in c), (loc, what))

    def __call__(self, e, env):
        if self.fail:
            return
        if e.kind == 'draw':
            shape, world, args, kw, pos, ori = e.data
            if world is not self.R.w:
                self.odd.append((e.loc, 'draws into another world'))
                return
            env = self.env(env)
            kws = [(kv(p.args[0]), p.args[1]) for p in kw.args if kv(p.args[0]) not in ('tex', 'prob', 'subtract')]
            at = vector(pos, env)
            to = vector(ori, env)[1:]
            if to not in [TURN[k](1, 0) + (0,) for k in range(4)]:
                raise kits.Unknown('orientation')
            k = [TURN[k](1, 0) + (0,) for k in range(4)].index(to)
            rolls = dice(mk('tup', *([a for a in args.args] + [v for _, v in kws])))
            rolls = [(a, vs) for a, vs in rolls]
            n = 1
            for a, vs in rolls:
                n *= len(vs)
            combos = itertools.product(*[[(a, v) for v in (vs if n <= 4 else dict.fromkeys((vs[0], vs[-1])))] for a, vs in rolls])
            u = {'CoarseVector': 8, 'FineVector': 1}[at[0]]
            for combo in combos:
                x = {**env, **dict(combo)}
                got = self.cover(k, kv(shape), tuple(vector(a, x) for a in args.args), tuple((q, vector(v, x)) for q, v in kws))
                if isinstance(got, str):
                    self.fail = (e.loc, 'drawing a %s %s' % (kv(shape), got))
                    return
                for c in got:
                    self.touch(tuple(int(a * u + b) for a, b in zip(at[1:], c)), e.loc, kv(shape))
        elif e.kind == 'cell':
            env = self.env(env)
            self.touch(tuple(int(kits.number(c, env)) for c in e.data[1:4]), e.loc, 'cell')
        elif e.kind == 'call' and e.data[0].op == 'ext' and e.data[0].args[0] in ('random.randint', 'random.randrange'):
            for a in e.data[1]:
                if getattr(a, 'ty', None) == 'float' or (a.op == 'k' and isinstance(kv(a), float)):
                    self.fail = (e.loc, 'random.%s is given the fraction %s, which Python refuses' % (e.data[0].args[0][7:], show(a)))
        elif e.kind == 'raise':
            self.odd.append((e.loc, 'may raise'))
        elif e.kind == 'top':
            raise kits.Unknown('not analysable: %s' % str(e.data[0])[:80])


def rendering(ctx):
    ctx.rule('every room class is evaluated at an unknown position in every orientation and with all combinations of its flags, then drawn; all cells that any outcome of the random numbers touches '
             'must lie in cells that the room occupies, and those of a turned room must be those of the eastward room turned about the centre of its cell')
    ctx.assumption('cells of rooms made from voxel models are represented by the corner voxels of every cell of the model')

    def go():
        R = Rooms(ctx, draw=True)
        cover = Cover(ctx)
        todo = R.classes()
        for ci, n, vox in todo:
            for flags in variants(n):
                draw_all(ctx, R, cover, ci, vox, n, flags)
        # a model that does not fill its cells from the west and the south
        more = [(ci, n, vox) for ci, n, vox in todo if vox is not None and ci.mro[1] is R.voxbase][:1]
        for ci, n, vox in more:
            for b in ({'WEST': 3}, {'SOUTH': 2}, {'WEST': 1, 'SOUTH': 5}):
                R.shift = b
                R.models.clear()
                draw_all(ctx, R, cover, ci, vox, n, (True,) * n, ' shifted ' + ','.join('%s %d' % q for q in sorted(b.items())))
            R.shift = None
        ctx.stat('constructions_compared', len(cover.memo) - cover.sums)
        return R.I
    return guarded(ctx, 'rooms', go)


def render(R, r):
    """effects of drawing a room and the entities it adds"""
    I, st = R.I, R.st
    R.w = I.call(I.lookup(VW), [K(256)], {}, st, None)
    ents = st.alloc(Seq('list', ()))
    xmap = st.alloc(Inst(None, {'ents': ents, 'world': NONE}, where='map'))
    n = len(st.eff)
    I.call(I.getattr_(r, 'render', st, None), [R.w, xmap], {}, st, None)
    return list(st.eff)[n:], ents


def draw_all(ctx, R, cover, ci, vox, n, flags, more=''):
    east = None
    for orient in range(4):
        d = draw_one(ctx, R, cover, ci, vox, n, orient, flags, more)
        if d is None:
            return
        if orient == 0:
            east = d.voxels
            continue
        want = {CELL_TURN[orient](x, y) + (z,) for x, y, z in east}
        if set(d.voxels) != want:
            q = sorted(set(d.voxels) ^ want)[0]
            ctx.violation(label(ci, orient, flags) + more, d.voxels[q][0] if q in d.voxels else where(ci), 'turned towards %s, %s draws other voxels than eastwards: %s %s' % (
                COMPASS[orient], ci.name, q, 'is drawn too' if q in d.voxels else 'is not drawn'))
            return


def draw_one(ctx, R, cover, ci, vox, n, orient, flags, more=''):
    key = label(ci, orient, flags) + more
    r = R.build(ci, vox, n, orient, flags)
    if r is None:
        return None
    if R.st.dead:
        ctx.violation(key, where(ci), 'building the room fails: %s' % kits.dead(R.st))
        return None
    room = R.footprint(r)
    if not isinstance(room, tuple):
        ctx.undecided(key, where(ci), 'cells are not known')
        return None
    I = R.I
    effs, ents = render(R, r)
    loc = method_of(R, r, ci, 'render')[0]
    if R.st.dead:
        ctx.violation(key, loc, 'drawing the room fails: %s' % kits.dead(R.st))
        return None
    d = Drawing(R, cover, orient)
    try:
        events(effs, {}, d)
    except kits.Unknown as e:
        ctx.undecided(key, loc, str(e))
        return None
    ctx.stat('rooms_compared')
    if d.fail:
        ctx.violation(key, d.fail[0], d.fail[1])
        return None
    out = sorted(set(d.cells) - set(room[0]))
    if out:
        l, shape = d.cells[out[0]]
        ctx.violation(key, l, '%s drawn by %s touches %s, a cell that the room does not occupy' % (shape, ci.name, out[0]))
        return None
    for l, what in d.odd:
        ctx.undecided(key, l, what)
        return None
    after = R.footprint(r)
    if isinstance(after, tuple) and (set(after[0]), set(after[1])) != (set(room[0]), set(room[1])):
        ctx.violation(key, loc, 'drawing the room changes the cells it occupies')
        return None
    ctx.ok(key)
    return d


# ---------------------------------------------------------------- entities
def gathered(I, st, v, out, path=()):
    """all entities that a list may hold: False if they are not known"""
    o = st.obj(v)
    if not isinstance(o, Seq):
        return False

    def one(v, path):
        if v.op == 'ite':
            one(v.args[1], path + ((v.args[0], True),))
            one(v.args[2], path + ((v.args[0], False),))
        else:
            out.append((v, path))

    def go(pieces, path):
        for p in pieces:
            if p[0] == 'i':
                one(p[1], path)
            elif p[0] == 'if':
                if not go(p[2], path + ((p[1], True),)) or not go(p[3], path + ((p[1], False),)):
                    return False
            elif p[0] == 'rep':
                return False
            else:
                return False
        return True
    return go(o.pieces, path)


def attributes(I, st, e):
    names, vals = (I.getattr_(e, k, st, None, quiet=True) for k in ('attr_annotations', 'attrs'))
    R = (st.obj(names), st.obj(vals)) if names is not None and vals is not None else (None, None)
    if not all(isinstance(o, Seq) and all(p[0] == 'i' for p in o.pieces) for o in R):
        return {}
    return {kv(a[1]): b[1] for a, b in zip(R[0].pieces, R[1].pieces) if iskt(a[1], 'str')}


def entity(R, e):
    """(type, offset in quarters of a voxel, attributes) of an entity; None if it is not constant relative to the room"""
    I, st = R.I, R.st
    o = I.getattr_(e, 'o', st, None, quiet=True)
    t = I.getattr_(e, 'type', st, None, quiet=True)
    if o is None or t is None or t.op != 'enumm':
        return None
    at = []
    for k, p in zip('xyz', R.p):
        v = I.getattr_(o, k, st, None, quiet=True)
        c = None if v is None else sub(v, scale(p, 32))
        if c is None:
            return None
        if not isnum(c):
            try:
                vals = {evalt.ev(c, dict(zip(R.p, q))) for q in ((0, 0, 0), (7, 12, 3), (20, 5, 1))}
            except evalt.Unknown:
                return None
            return 'moves' if len(vals) > 1 else None
        at.append(kv(c))
    return t.args[1], tuple(at), attributes(I, st, e)


# in entity units (32 per cell), about the centre of the cell of the room's position
ENT_TURN = (lambda x, y: (x, y), lambda x, y: (32 - y, x), lambda x, y: (32 - x, 32 - y), lambda x, y: (y, 32 - x))


def entities(ctx):
    ctx.rule('every room class is evaluated at an unknown position in every orientation and with all combinations of its flags, then drawn; every entity that it may add to the map must lie '
             'inside the box around its cells, and pushers, models and items of a turned room must be those of the eastward room turned about the centre of its cell')

    def go():
        R = Rooms(ctx, more={X: lambda I, args, kw, st, node: NONE})
        for ci, n, vox in R.classes():
            for flags in variants(n):
                east = None
                teams = {}
                for orient in range(4):
                    got = ents_of(ctx, R, ci, vox, n, orient, flags)
                    if got is None:
                        break
                    loc, es = got
                    if orient == 0:
                        east = es
                    else:
                        why = other_turn(east, es, orient)
                        ctx.require(not why, label(ci, orient, flags), loc, 'turned towards %s, %s: %s' % (COMPASS[orient], ci.name, why))
                        if why:
                            break
                    for t, at, attrs in es:
                        if t == 'ET_AFFINITY':
                            v = attrs.get('team')
                            if v is not None and isnum(v):
                                teams.setdefault(kv(v), set()).add(orient)
                for t, os_ in sorted(teams.items()):
                    ctx.require(len(os_) == 1 and t in (1, 2, 3, 4), '%s/team%s' % (ci.name, t), where(ci),
                                'rooms turned towards %s hold a flag of the same team %s' % (' and '.join(COMPASS[o] for o in sorted(os_)), t) if len(os_) > 1 else 'no team has the number %s' % t)
        return R.I
    return guarded(ctx, 'rooms', go)


def ents_of(ctx, R, ci, vox, n, orient, flags):
    key = label(ci, orient, flags)
    r = R.build(ci, vox, n, orient, flags)
    if r is None or R.st.dead:
        return None
    room = R.footprint(r)
    if not isinstance(room, tuple):
        ctx.undecided(key, where(ci), 'cells are not known')
        return None
    effs, ents = render(R, r)
    loc = method_of(R, r, ci, 'render_extra', 'render')[0]
    if R.st.dead:
        ctx.violation(key, loc, 'drawing the room fails: %s' % kits.dead(R.st))
        return None
    raw = []
    if not gathered(R.I, R.st, ents, raw):
        ctx.undecided(key, loc, 'the entities that the room adds are not known')
        return None
    out = []
    lo = [32 * min(c[i] for c in room[0]) for i in range(3)]
    hi = [32 * max(c[i] + 1 for c in room[0]) for i in range(3)]
    for e, path in raw:
        if e.op in ('unbound', 'none') or e is NONE:
            ctx.violation(key, loc, '%s adds %s to the entities' % (ci.name, show(e)))
            return None
        q = entity(R, e)
        if q is None:
            ctx.undecided(key, loc, 'entity %s is not placed relative to the room' % show(R.I.freeze(e, R.st))[:60])
            return None
        if q == 'moves':
            ctx.violation(key, loc, 'an entity that %s adds does not move with the room' % ci.name)
            return None
        ctx.stat('entities_placed')
        t, at, attrs = q
        if not all(a <= v < b for a, v, b in zip(lo, at, hi)):
            ctx.violation(key, loc, '%s puts %s at %s (in voxels from its position), outside its cells' % (ci.name, t, tuple(v / 4 for v in at)))
            return None
        out.append(q)
    ctx.ok(key)
    return loc, out


def other_turn(east, es, k):
    """why the entities of a turned room are not those of the eastward room turned"""
    a = [(t, ENT_TURN[k](*at[:2]) + at[2:], attrs) for t, at, attrs in east if t != 'ET_LIGHT']
    b = [q for q in es if q[0] != 'ET_LIGHT']
    if len(es) != len(east):
        return '%d entities instead of %d' % (len(es), len(east))
    for t, at, attrs in a:
        near = [q for q in b if q[0] == t and all(abs(x - y) <= 4 for x, y in zip(q[1], at))]
        if not near:
            return '%s at %s has no counterpart' % (t, tuple(v / 4 for v in at))
        if t in ('ET_PUSHER', 'ET_MAPMODEL'):
            y = attrs.get('yaw')
            if y is None or not isnum(y):
                continue
            want = (kv(y) + 90 * k) % 360
            ys = [q[2].get('yaw') for q in near]
            if all(v is not None and isnum(v) for v in ys):
                ok = [q for q in near if kv(q[2]['yaw']) % 360 == want]
                if not ok:
                    return '%s at %s faces %s instead of %s' % (t, tuple(v / 4 for v in at), [kv(v) for v in ys][0], want)
                near = ok
        b.remove(near[0])
    return None


# ---------------------------------------------------------------- rooms made from voxel models


def models(ctx):
    ctx.rule('every room class made from a voxel model is evaluated in every orientation with a model of a few voxels of known colours; the blocks it draws must be those voxels, '
             'moved by the boundary additions and turned about the centre of the cell, each once and with the texture of its colour')
    ctx.assumption('the model that the reader returns holds eight voxels of seven colours')

    def go():
        R = Models(ctx)
        for ci, n, vox in R.classes():
            if vox is None:
                continue
            for shift in (None, {'WEST': 3, 'SOUTH': 2}):
                R.shift = shift
                for orient in range(4):
                    model_room(ctx, R, ci, vox, n, orient)
            R.shift = None
        return R.I
    return guarded(ctx, 'rooms', go)


PALETTE = ((0, 0, 0, 0), (255, 0, 0, 255), (51, 102, 204, 255), (255, 255, 255, 255), (10, 20, 30, 255), (0, 255, 0, 128), (255, 0, 0, 77), (0, 0, 0, 255))
# the colour of the team whose flag stands in a flag room
TEAM = {1: (0, 0, 1), 2: (1, 0, 0), 3: (1, 1, 0), 4: (0, 1, 0)}


class Models(Rooms):
    """every model holds the same few voxels"""
    rows = ((0, 0, 0, 1), (1, 0, 0, 2), (0, 1, 0, 3), (0, 0, 9, 4), (9, 3, 2, 5), (5, 12, 1, 1), (7, 7, 7, 6), (2, 3, 20, 7))

    def __init__(self, ctx):
        super().__init__(ctx, draw=True)

    def voxels(self, ci, vox):
        self.models[ci] = list(self.rows)
        return self.models[ci]

    def model(self, I, args, kw, st, node):
        vs = [('i', st.alloc(Inst(None, {k: K(c) for k, c in zip('xyzc', row)}, where='voxel'))) for row in self.rows]
        cols = [('i', st.alloc(Inst(None, {k: K(c) for k, c in zip('rgba', col)}, where='colour'))) for col in PALETTE]
        mv = st.alloc(Inst(None, {'voxels': st.alloc(Seq('list', tuple(vs))), 'num_voxels': K(len(vs))}, where='voxels'))
        pal = st.alloc(Inst(None, {'colours': st.alloc(Seq('list', tuple(cols)))}, where='palette'))
        return st.alloc(Inst(None, {'model_voxels': mv, 'palette': pal}, where='model'))


def model_room(ctx, R, ci, vox, n, orient):
    key = label(ci, orient, ()) + (' shifted' if R.shift else '')
    r = R.build(ci, vox, n, orient, (True,) * n)
    if r is None:
        return
    loc = method_of(R, r, ci, 'render')[0]
    off = [0, 0]
    b = R.I.getattr_(r, 'boundary_additions', R.st, None, quiet=True)
    if b is not None:
        for i, k in enumerate(('WEST', 'SOUTH')):
            v = R.I.call(R.I.getattr_(b, 'get', R.st, None), [K(k), K(0)], {}, R.st, None)
            off[i] = kv(v) if isnum(v) else 0
    effs, ents = render(R, r)
    if R.st.dead:
        ctx.violation(key, loc, 'drawing the room fails: %s' % kits.dead(R.st))
        return
    want = {}
    for x, y, z, c in R.rows:
        want[CELL_TURN[orient](x + off[0], y + off[1]) + (z,)] = PALETTE[c]
    got = {}

    def sink(e, env):
        if e.kind in ('raise', 'top', 'cell'):
            raise kits.Unknown(e.kind)
        if e.kind != 'draw':
            return
        shape, world, args, kw, pos, ori = e.data
        if kv(shape) != 'cube' or world is not R.w:
            raise kits.Unknown('a %s' % kv(shape))
        env = dict(env)
        for p in R.p:
            env[p] = 0
        kws = {kv(p.args[0]): p.args[1] for p in kw.args}
        v = kws.get('offset') if 'offset' in kws else args.args[0]
        at, o = vector(pos, env), vector(v, env)
        if vector(ori, env)[1:] != TURN[orient](1, 0) + (0,):
            raise kits.Unknown('orientation')
        q = [8 * a if at[0] == 'CoarseVector' else a for a in at[1:]]
        o = [8 * a if o[0] == 'CoarseVector' else a for a in o[1:]]
        d = tuple(int(a + b) for a, b in zip(q, CELL_TURN[orient](o[0], o[1]) + (o[2],)))
        got.setdefault(d, []).append((kws.get('tex'), e.loc))
    try:
        events(effs, {}, sink)
    except kits.Unknown as e:
        ctx.undecided(key, loc, 'drawing %s' % e)
        return
    for q in sorted(set(want) ^ set(got)):
        ctx.violation(key, got[q][0][1] if q in got else loc, '%s facing %s: the voxel that belongs at %s is not drawn' % (ci.name, COMPASS[orient], q) if q in want else
                      '%s facing %s draws a block at %s, where the model has no voxel' % (ci.name, COMPASS[orient], q))
        return
    for q, l in sorted(got.items()):
        if len(l) > 1:
            ctx.violation(key, l[1][1], 'the voxel at %s is drawn %d times' % (q, len(l)))
            return
    team = None
    raw = []
    if gathered(R.I, R.st, ents, raw):
        for e, _ in raw:
            x = entity(R, e)
            if x is not None and x[0] == 'ET_AFFINITY' and isnum(x[2].get('team', NONE)):
                team = kv(x[2]['team'])
    base = method_of(R, r, ci, 'colour_to_texture')[1]
    own = base is not None and not base.startswith(VOXROOM)
    for q, l in sorted(got.items()):
        tex, where_ = l[0]
        col = colour_asked(tex)
        if col is None:
            if own and team is None:
                continue            # rooms with textures of their own
            ctx.undecided(key, where_, 'texture %s' % show(tex)[:80] if tex is not None else 'no texture')
            return
        w = tuple(c / 255 for c in want[q][:3])
        if team is not None and w == (1, 0, 0):
            w = TEAM.get(team)
        elif own and team is None:
            continue
        if w is not None and any(abs(a - b) > 1e-9 for a, b in zip(w, col)):
            ctx.violation(key, where_, 'the voxel at %s is drawn with the texture of the colour %s instead of %s' % (q, short_colour(col), short_colour(w)))
            return
    ctx.stat('voxels_compared', len(got))
    ctx.ok(key)


def short_colour(c):
    return '(%s)' % ', '.join('%.3g' % v for v in c)


def colour_asked(t):
    """the colour that a texture was asked for"""
    if t is None or t.op != 'ret' or t.args[0].op != 'fnname' or not t.args[0].args[0].endswith('.get_colour'):
        return None
    vs = [kv(a) for a in t.args[1] if isnum(a)] + [kv(v) for k, v in t.args[2] if isnum(v)]
    return tuple(vs) if len(vs) == 3 else None


# ---------------------------------------------------------------- flags
def flags(ctx):
    ctx.rule('the options drawn for a room class are evaluated after a room of the same class with every combination of flags and after a room of another class, for all outcomes of the random numbers; '
             'the room built from them must hold exactly these flags')

    def go():
        R = Rooms(ctx)
        I = R.I
        todo = R.classes()
        other = [ci for ci, n, vox in todo if n == 0 and vox is None][0]
        for ci, n, vox in todo:
            for prev in [None] + list(variants(n) if n else [()]):
                key = '%s after %s' % (ci.name, 'another room' if prev is None else 'itself' + ('/' + ''.join('01'[f] for f in prev) if n else ''))
                if prev is None:
                    st = R.st = I.state()
                    pr = I.call(mk('cls', other if ci is not other else R.base), [], {'pos': I.call(I.lookup(V + 'CoarseVector'), [K(1), K(2), K(3)], {}, st, None)}, st, None)
                else:
                    pr = R.build(ci, vox, n, 0, prev)
                    st = R.st
                if pr is None or st.dead:
                    ctx.undecided(key, where(ci), 'building the room fails')
                    continue
                f = I.getattr_(mk('cls', ci), 'randOpts', st, None)
                loc = f.args[1].args[0].loc if f.op == 'bm' and f.args[1].op == 'fn' else where(ci)
                got = I.call(f, [pr], {}, st, None)
                if st.dead:
                    ctx.violation(key, loc, 'drawing the options of %s fails: %s' % (key, kits.dead(st)))
                    continue
                try:
                    options_of(ctx, R, key, loc, ci, n, vox, prev, pr, got)
                except (kits.Unknown, evalt.Unknown) as e:
                    try:
                        bad = chosen(R, ci, n, vox, prev) if n else False
                    except (kits.Unknown, evalt.Unknown):
                        bad = False
                    if bad:
                        ctx.violation(key, loc, bad)
                    else:
                        ctx.undecided(key, loc, str(e))
        return I
    return guarded(ctx, 'rooms', go)


def chosen(R, ci, n, vox, prev):
    """the options for chosen random numbers, when they cannot be told for unknown ones"""
    from .textures import Luck
    I = R.I
    luck = Luck()
    old = I.cfg.get('ext')
    I.cfg['ext'] = {**(old or {}), **{k: h for k, h in luck.ext().items() if k.startswith('random.')}}
    try:
        for i in range(n):
            for j in range(3):
                if prev is None:
                    return False
                pr = R.build(ci, vox, n, 0, prev)
                st = R.st
                luck.script = [Fraction(2 * i + 1, 2 * n)] + [Fraction(2 * j + 1, 6)] * 20
                got = I.call(I.getattr_(mk('cls', ci), 'randOpts', st, None), [pr], {}, st, None)
                if st.dead:
                    return 'drawing the options of %s after the flags %s fails' % (ci.name, list(map(bool, prev)))
                o = st.obj(got)
                if not isinstance(o, Dic) or not all(p[0] == 'i' for p in o.pieces):
                    return False
                f = {kv(p[1][0]): p[1][1] for p in o.pieces if iskt(p[1][0], 'str')}.get('randflags')
                l = plain_values(I, st, f) if f is not None else None
                if l is None or not all(isk(x) for x in l):
                    return False
                vals = [bool(kv(x)) for x in l]
                if len(vals) != n or sum(a != b for a, b in zip(vals, prev)) != 1:
                    return 'after a %s with the flags %s the next one has %s' % (ci.name, list(map(bool, prev)), vals)
    finally:
        I.cfg['ext'] = old or {}
    return False


def plain_values(I, st, v):
    """elements of a list or tuple whose length is known"""
    v = I.freeze(v, st) if v.op == 'ref' else v
    if v.op == 'tup':
        return list(v.args)
    return elements(v)


def elements(t):
    if t.op == 'seq' and all(p[0] == 'i' for p in t.args[1]):
        return [p[1] for p in t.args[1]]
    if t.op == 'tup':
        return list(t.args)
    raise kits.Unknown('not a list of known length: %s' % show(t)[:80])


def worlds(t, n):
    """valuations of the random numbers in a term"""
    ts = sorted({a for x in t for a in evalt.atoms(x)}, key=str)
    axes = []
    for a in ts:
        if a.op == 'ret' and a.args[0].op == 'ext':
            f = a.args[0].args[0]
            xs = a.args[1]
            if f == 'random.randint' and len(xs) == 2 and all(isnum(x) for x in xs):
                axes.append([(a, v) for v in range(int(kv(xs[0])), int(kv(xs[1])) + 1)])
                continue
            if f == 'random.randrange' and xs and all(isnum(x) for x in xs):
                axes.append([(a, v) for v in range(*[int(kv(x)) for x in xs])])
                continue
            if f in ('random.random', 'random.uniform'):
                lo, hi = (0, 1) if f == 'random.random' else [kv(x) for x in xs]
                axes.append([(a, lo + (hi - lo) * p) for p in (0.01, 0.99)])
                continue
            if f == 'random.choice':
                raise kits.Unknown('random.choice')
        if a.op == 'rndidx':
            axes.append([(a, v) for v in range(n)])
            continue
        raise kits.Unknown('unknown quantity %s' % show(a)[:80])
    for c in itertools.product(*axes):
        yield dict(c)


def options_of(ctx, R, key, loc, ci, n, vox, prev, pr, got):
    I, st = R.I, R.st
    o = st.obj(got)
    names = None
    if isinstance(o, Dic) and all(p[0] == 'i' for p in o.pieces):
        names = {kv(p[1][0]): p[1][1] for p in o.pieces if iskt(p[1][0], 'str')}
        if len(names) != len(o.pieces):
            names = None
    if names is None:
        raise kits.Unknown('options %s' % show(I.freeze(got, st))[:80])
    if n == 0:
        if 'randflags' in names and plain_values(I, st, names['randflags']):
            ctx.violation(key, loc, '%s has no flags, but options are drawn for it' % ci.name)
            return
        for given in ((True, False), (False, False)):
            r = R.build(ci, vox, 2, 1, given)
            if r is None:
                continue
            if R.st.dead:
                ctx.violation(key, where(ci), 'building the room with flags fails: %s' % kits.dead(R.st))
                return
            f = I.getattr_(r, '_randflags', R.st, None, quiet=True)
            if f is None or [evalt.ev(x, {}) for x in plain_values(I, R.st, f)] != list(given):
                ctx.violation(key, where(ci), '%s does not keep the flags it is given' % ci.name)
                return
        ctx.ok(key)
        return
    if 'randflags' not in names:
        ctx.violation(key, loc, 'no flags are drawn for %s, which has %d' % (ci.name, n))
        return
    fl = plain_values(I, st, names['randflags'])
    if len(fl) != n:
        ctx.violation(key, loc, '%d flags are drawn for %s, which has %d' % (len(fl), ci.name, n))
        return
    seen = set()
    for env in worlds(fl, n):
        vals = tuple(bool(evalt.ev(x, env)) for x in fl)
        seen.add(vals)
        if prev is not None and sum(a != b for a, b in zip(vals, prev)) != 1:
            ctx.violation(key, loc, 'after a %s with the flags %s the next one has %s: %d flags change instead of one' % (
                ci.name, list(map(bool, prev)), list(vals), sum(a != b for a, b in zip(vals, prev))))
            return
    want = {v for v in variants(n) if prev is None or sum(a != b for a, b in zip(v, prev)) == 1}
    want = {tuple(map(bool, v)) for v in want}
    if want - seen:
        ctx.violation(key, loc, 'the flags %s are never drawn for %s' % (list(sorted(want - seen)[0]), ci.name))
        return
    if prev is not None:
        after = plain_values(I, st, I.getattr_(pr, '_randflags', st, None))
        if any(tuple(bool(evalt.ev(x, env)) for x in after) != tuple(map(bool, prev)) for env in worlds(after, n)):
            ctx.violation(key, loc, 'drawing the options changes the flags of the previous room')
            return
    cls_flags = plain_values(I, st, I.getattr_(mk('cls', ci), '_randflags', st, None))
    pos = I.call(I.lookup(V + 'CoarseVector'), [K(1), K(2), K(3)], {}, st, None)
    r = I.call(mk('cls', ci), [], {'pos': pos, 'orientation': I.lookup(O + 'NORTH'), 'randflags': names['randflags']}, st, None)
    if st.dead:
        ctx.violation(key, where(ci), 'building the room with these flags fails: %s' % kits.dead(st))
        return
    held = plain_values(I, st, I.getattr_(r, '_randflags', st, None))
    if len(held) != n:
        ctx.violation(key, where(ci), '%s holds %d flags instead of %d' % (ci.name, len(held), n))
        return
    for env in worlds(fl + held, n):
        if [bool(evalt.ev(x, env)) for x in held] != [bool(evalt.ev(x, env)) for x in fl]:
            ctx.violation(key, where(ci), '%s does not keep the flags it is given' % ci.name)
            return
    now = plain_values(I, st, I.getattr_(mk('cls', ci), '_randflags', st, None))
    if now != cls_flags and any([evalt.ev(x, env) for x in now] != [evalt.ev(x, env) for x in cls_flags] for env in worlds(now + cls_flags, n)):
        ctx.violation(key, where(ci), 'building a %s changes the flags of the class' % ci.name)
        return
    ctx.stat('options_compared')
    ctx.ok(key)
