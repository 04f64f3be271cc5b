"""Placing rooms: which cells and doors the position manager keeps, which rooms it accepts and how it joins them."""
import collections
import random
from fractions import Fraction
from .rooms import *

MGR = 'redeclipse.upm:UnusedPositionManager'
CVEC = ('obj', V + 'CoarseVector')
SIDE = 32           # cells along each side of a map
ROT = {1: (0,), 2: (0, 2), 4: (0, 1, 2, 3)}
DIRS = ((1, 0, 0), (0, 1, 0), (-1, 0, 0), (0, -1, 0))


TEST = 'redeclipse.prefabs:TestRoom'
# cells and doors (place, side) of rooms that differ from those of the package
SHAPES = {'door to own cell': (((0, 0, 0), (1, 0, 0)), (((-1, 0, 0), 2), ((1, 0, 0), 0), ((0, 1, 0), 1))),
          'several doors per side': (((0, 0, 0), (0, 1, 0), (0, 2, 1)), (((-1, 0, 0), 2), ((-1, 1, 0), 2), ((-1, 2, 1), 2), ((1, 1, 0), 0), ((0, -1, 0), 3))),
          'distant doors': (((0, 0, 0),), (((-3, 0, 0), 2), ((0, -2, 1), 3))),
          'long': (((0, 0, 0), (1, 0, 0), (2, 0, 0), (2, 0, 1)), (((-1, 0, 0), 2),)),
          'no door': (((0, 0, 0), (0, 0, 1), (-1, 0, 0)), ())}


def legal(c):
    return all(0 <= v < SIDE for v in c)


def about(c, k):
    """quarter turn k about the middle of the map (cell 16, 16)"""
    x, y = TURN[k](c[0] - 16, c[1] - 16)
    return (x + 16, y + 16, c[2])


def plus(a, b):
    return tuple(x + y for x, y in zip(a, b))


class Placing(Models):
    """rooms and a position manager with unknown contents"""
    def __init__(self, ctx, more=None):
        self.shape = self.tag = None
        Rooms.__init__(self, ctx, draw=True, more={ROOM + '.randOpts': self.options, ROOM + '._get_positions': self.cells_of, ROOM + '._get_doorways': self.doors_of, **(more or {})})
        self.order = 0
        self.asked = []
        self.given = None
        ext = self.I.cfg.setdefault('ext', {})
        ext.update({'random.sample': self.sample, 'random.shuffle': self.shuffled})
        self.I.load('redeclipse.upm')

    # -- stand-ins
    def cells_of(self, I, args, kw, st, node):
        """the cells of a room class that a user may add"""
        if not self.own(args, st):
            return None
        return st.alloc(Seq('list', tuple(('i', self.vec_in(c, st)) for c in self.shape[0])))

    def doors_of(self, I, args, kw, st, node):
        if not self.own(args, st):
            return None
        return st.alloc(Seq('list', tuple(('i', st.alloc(Dic((('i', (K('orientation'), I.lookup(O + COMPASS[k]))), ('i', (K('offset'), self.vec_in(c, st))))))) for c, k in self.shape[1])))

    def own(self, args, st):
        o = st.obj(args[0]) if len(args) == 1 and args[0].op == 'ref' else None
        return self.shape is not None and isinstance(o, Inst) and o.cls is not None and o.cls.qual == TEST

    def vec_in(self, c, st):
        return self.I.call(self.I.lookup(V + 'CoarseVector'), [K(x) for x in c], {}, st, None)

    def shaped(self, rooms_):
        """the rooms, then rooms of the shapes below"""
        for x in rooms_:
            yield x
        c = self.I.lookup(TEST)
        if c is not None and c.op == 'cls':
            for self.tag, self.shape in sorted(SHAPES.items()):
                yield c.args[0], 0, None
        self.shape = self.tag = None

    def options(self, I, args, kw, st, node):
        """the options drawn for a room (R05 is about how they are drawn)"""
        if self.given is None:
            return None
        return st.alloc(Dic((('i', (K('randflags'), st.alloc(Seq('list', tuple(('i', TRUE if f else FALSE) for f in self.given)))),),) if self.given else ()))

    def permuted(self, ps):
        ps = list(ps)
        return ps[::-1] if self.order == 1 else (ps[1:] + ps[:1] if self.order == 2 else ps)

    def listed(self, I, v, st):
        o = st.obj(v)
        ps = o.pieces if isinstance(o, Seq) else (tuple(('i', a) for a in v.args) if v.op == 'tup' else None)
        return ps if ps is not None and all(p[0] == 'i' for p in ps) else None

    def sample(self, I, a, kw, st, node):
        """one order of the elements; what is shown for the rooms found holds for each order alike"""
        a = list(a) + [kw[k] for k in ('population', 'k')[len(a):] if k in kw]
        ps = self.listed(I, a[0], st) if len(a) == 2 else None
        if ps is None or not isnum(a[1]):
            return None
        if kv(a[1]) > len(ps) or kv(a[1]) < 0:
            return I.fail(st, 'ValueError', 'sample larger than population', node)
        self.population = [p[1] for p in ps]
        return st.alloc(Seq('list', tuple(self.permuted(ps)[:int(kv(a[1]))])))

    def shuffled(self, I, a, kw, st, node):
        o = st.obj(a[0])
        if not isinstance(o, Seq) or self.listed(I, a[0], st) is None:
            return None
        I.B.mutate(I, a[0], o.with_(tuple(self.permuted(o.pieces))), st, 'shuffle', (), node)
        return NONE

    def fits(self, I, args, kw, st, node):
        """the answer of preregister_room (U02 is about how it is found)"""
        if len(args) != 2 or kw:
            return None
        now, self.st = self.st, st
        t = Trim(self).room(args[1])
        self.st = now
        b = I.sym('fits%d' % len(self.asked), 'bool')
        self.asked.append((b, t))
        return b

    # -- building
    def vec(self, c):
        return self.I.call(self.I.lookup(V + 'CoarseVector'), [K(x) if isinstance(x, int) else x for x in c], {}, self.st, None)

    def manager(self, mirror, opens=2, noclip=False):
        """a manager with unknown occupied cells and some open doors at unknown places"""
        I, st = self.I, self.st
        u = I.call(I.lookup(MGR), [K(256)], {'mirror': K(mirror), **({'noclip': TRUE} if noclip else {})}, st, None)
        if st.dead:
            return u
        self.occ = I.typed(mk('sym', 'occupied'), ('dict', CVEC, ('obj', ROOM)))
        I.setattr_(u, 'occupied', self.occ, st, None)
        self.occ = I.freeze(I.getattr_(u, 'occupied', st, None), st)
        self.opens = []
        rows = []
        for i in range(opens):
            at = [I.sym('open%d%s' % (i, k), 'int') for k in 'xyz']
            rm = st.alloc(Inst(None, {'pos': K('open%d' % i)}, where='room'))
            self.opens.append((at, rm, i % 4))
            rows.append(('i', mk('tup', self.vec(at), rm, self.vec(DIRS[i % 4]))))
        I.setattr_(u, 'unoccupied', st.alloc(Seq('list', tuple(rows))), st, None)
        return u

    # -- valuations
    def key(self, c):
        """how a vector reads under a valuation"""
        return ('obj', V + 'CoarseVector', ('x', c[0]), ('y', c[1]), ('z', c[2]))

    def env(self, p, occ=(), opens=()):
        e = dict(zip(self.p, p))
        e[self.occ] = {self.key(c): ('old', c) for c in occ}
        for (at, rm, d), q in zip(self.opens, opens):
            e.update(zip(at, q))
        return e


def rounded(v):
    """numbers of a value without distinguishing 1 and 1.0"""
    if isinstance(v, tuple):
        return tuple(rounded(x) for x in v)
    return v


def unvec(v):
    if isinstance(v, tuple) and v[:1] == ('obj',) and v[1].endswith('Vector'):
        d = dict(v[2:])
        return tuple(int(d[k]) if d[k] == int(d[k]) else d[k] for k in 'xyz')
    return None


def roomval(v):
    """class, position and orientation of an evaluated room"""
    if isinstance(v, tuple) and v[:1] == ('obj',):
        d = dict(x for x in v[2:] if isinstance(x, tuple) and len(x) == 2)
        if 'pos' in d and 'orientation' in d:
            return v[1], unvec(d['pos']), unvec(d['orientation']), d.get('_randflags')
    return None


class Trim:
    """freeze rooms by what identifies them, so that evaluation does not walk through voxel models"""
    def __init__(self, R):
        self.R = R

    def room(self, ref):
        I, st = self.R.I, self.R.st
        o = st.obj(ref)
        if not isinstance(o, Inst):
            raise kits.Unknown('room %s' % show(ref)[:60])
        if o.cls is None:
            return mk('tup', K('stub'), o.fields.get('pos', NONE))
        fl = I.getattr_(ref, '_randflags', st, None, quiet=True)
        return mk('tup', K(o.cls.qual), I.freeze(I.getattr_(ref, 'pos', st, None), st), I.freeze(I.getattr_(ref, 'orientation', st, None), st), I.freeze(fl, st) if fl is not None else NONE)

    def value(self, v):
        o = self.R.st.obj(v) if v.op == 'ref' else None
        if isinstance(o, Inst) and (o.cls is None or self.R.base in o.cls.mro):
            return self.room(v)
        if isinstance(o, Seq):
            return mk('seq', o.kind, self.pieces(o.pieces))
        if isinstance(o, Dic):
            return mk('dic', self.pieces(o.pieces))
        if v.op == 'tup':
            return mk('tup', *[self.value(a) for a in v.args])
        if v.op == 'ite':
            return ite(v.args[0], self.value(v.args[1]), self.value(v.args[2]))
        return self.R.I.freeze(v, self.R.st)

    def pieces(self, ps):
        out = []
        for p in ps:
            if p[0] == 'i':
                out.append(('i', tuple(self.value(x) for x in p[1]) if isinstance(p[1], tuple) else self.value(p[1])))
            elif p[0] == 'sp':
                out.append(('sp', self.value(p[1])))
            elif p[0] == 'if':
                out.append(('if', p[1], self.pieces(p[2]), self.pieces(p[3])))
            else:
                raise kits.Unknown('a loop of unknown length')
        return tuple(out)


def raised(effs, env):
    """the first exception that the effects raise under a valuation"""
    for e in effs:
        if e.kind == 'raise':
            return e
        if e.kind == 'if':
            r = raised(e.data[1] if evalt.ev(e.data[0], env) else e.data[2], env)
            if r is not None:
                return r
        elif e.kind == 'loop':
            c = e.data[0].count
            n = int(kits.number(c, env)) if c is not None else None
            if n is None and any(x.kind == 'raise' for x, _ in walk(e.data[1])):
                raise kits.Unknown('loop of unknown length')
            for i in range(n or 0):
                x = dict(env)
                for d in kits.idx_terms(e.data[0]):
                    x[d] = i
                r = raised(e.data[1], x)
                if r is not None:
                    return r
        elif e.kind == 'try':
            raise kits.Unknown('exception handling')
        elif e.kind == 'top':
            raise kits.Unknown('not analysable: %s' % (show(e.data[0]) if isinstance(e.data[0], T) else str(e.data[0])))
    return None


def copies(foot, p, mirror, orient):
    """(position, quarter turn, cells, doors) of the mirror copies of a room whose footprint at p is known"""
    out = []
    for k in ROT[mirror]:
        at = about(p, k)
        cs = [plus(at, turned(c, k)) for c in foot[0]]
        ds = [(plus(at, turned(c, k)), turned(w, k)) for c, w in foot[1]]
        out.append((about(plus(p, foot[2]), k), (orient + k) % 4, cs, ds))
    return out


def acceptable(cs, occ):
    """why the copies may not be placed (None if they may)"""
    seen = set()
    for at, o, cells, drs in cs:
        for c in cells:
            if c in occ:
                return 'cell %s is occupied' % (c,)
            if c in seen:
                return 'cell %s belongs to two copies' % (c,)
            if not legal(c):
                return 'cell %s lies outside the map' % (c,)
        seen |= set(cells)
        for d, w in drs:
            if not legal(d):
                return 'door %s lies outside the map' % (d,)
    return None


def cases(R, foot, mirror, orient, rng, n):
    """positions of the room with occupied cells and open doors around its copies"""
    ext = 1 + max(abs(v) for c in foot[0] for v in c)
    edge = sorted({-1, 0, 1, 2, SIDE - 3, SIDE - 2, SIDE - 1, SIDE, ext, ext - 1, ext + 1, SIDE - ext, SIDE - 1 - ext, SIDE - ext - 2})
    mid = list(range(16 - ext, 17 + ext))
    for i in range(n):
        pick = i % 4
        if pick == 0:           # somewhere inside
            p = [rng.randrange(ext, SIDE - ext) for _ in range(3)]
        elif pick == 1:         # at an edge of the map
            p = [rng.randrange(ext, SIDE - ext) for _ in range(3)]
            p[rng.randrange(3)] = rng.choice(edge)
        elif pick == 2:         # where copies may meet
            p = [rng.choice(mid), rng.choice(mid), rng.randrange(ext, SIDE - ext)]
        else:                   # where copies may meet the other way around
            p = [rng.choice(mid), rng.choice(mid), rng.choice(edge)]
            if rng.random() < .5:
                p[0] = rng.randrange(SIDE)
        cs = copies(foot, tuple(p), mirror, orient)
        used = [c for q in cs for c in q[2]]
        near = used + [d for q in cs for d, _ in q[3]]
        near += [plus(c, w) for c in near for w in DIRS]
        occ = set()
        kind = rng.randrange(4)
        if kind == 1:
            occ = {rng.choice(used)}
        elif kind == 2:
            occ = {c for c in rng.sample(near, min(3, len(near)))}
        elif kind == 3:
            occ = {c for c in near if c not in used and rng.random() < .4}
        opens = [rng.choice(near) for _ in R.opens]
        yield tuple(p), cs, occ, opens


SOME = ('Corridor2way', 'NLongCorridor', 'Corridor4way', 'SpawnRoom', 'TestRoom', 'JumpCorridorVertical', 'castle_flag_room')


def chosen(ctx, R):
    """the room classes used as examples: all of them in the thorough tier"""
    all_ = R.classes()
    if ctx.tier == 'thorough':
        return all_
    out = [c for c in all_ if c[0].name in SOME]
    return out if len(out) >= 4 else all_[:8]


def name_of(R, ci, orient, flags):
    return label(ci, orient, flags) + (' (%s)' % R.tag if R.tag else '')


def ready(ctx, R, ci, n, vox, orient, flags):
    """build a room; its footprint or None"""
    key = name_of(R, ci, orient, flags)
    r = R.build(ci, vox, n, orient, flags)
    if r is None or R.st.dead:
        ctx.undecided(key, where(ci), 'building the room fails')
        return None, None
    foot = R.footprint(r)
    if not isinstance(foot, tuple):
        ctx.undecided(key, where(ci), 'cells or doors are not known: %s' % foot)
        return None, None
    home = R.place(R.I.getattr_(r, 'pos', R.st, None))          # some rooms keep another cell than the one they are asked for
    if home is None:
        ctx.undecided(key, where(ci), 'the position of the room is not known')
        return None, None
    return r, foot + (tuple(int(v // 8) for v in home),)


# ---------------------------------------------------------------- accepting and registering rooms
def accept(ctx):
    ctx.rule('preregister_room is evaluated for rooms at an unknown position, with unknown occupied cells, in all mirror modes; its result is compared with the definition for positions at the edges and in the '
             'middle of the map and occupied cells on and around the copies of the room')
    ctx.assumption('the definition: a room is acceptable when no cell of its mirror copies (turned about cell (16, 16)) is occupied, outside the 32 cells of the map or shared by two copies, and no door of a copy is outside the map')

    def go():
        R = Placing(ctx)
        rng = random.Random(7)
        for ci, n, vox in R.shaped(chosen(ctx, R)):
            for orient in range(4):
                for mirror in (1, 2, 4):
                    r, foot = ready(ctx, R, ci, n, vox, orient, (True,) * n)
                    if r is None:
                        break
                    key = '%s mirror %d' % (name_of(R, ci, orient, ()), mirror)
                    try:
                        accept_one(ctx, R, r, foot, key, ci, orient, mirror, rng)
                    except (kits.Unknown, evalt.Unknown) as e:
                        ctx.undecided(key, 'redeclipse/upm.py', str(e)[:200])
        return R.I
    return guarded(ctx, 'upm', go)


def accept_one(ctx, R, r, foot, key, ci, orient, mirror, rng):
    I, st = R.I, R.st
    u = R.manager(mirror)
    f = I.getattr_(u, 'preregister_room', st, None) if not st.dead else None
    if st.dead:
        ctx.undecided(key, 'redeclipse/upm.py', 'the manager cannot be built: %s' % kits.dead(st))
        return
    loc = f.args[1].args[0].loc
    names = ('occupied', 'unoccupied', 'rooms', 'links')
    before = [I.freeze(I.getattr_(u, k, st, None), st) for k in names]
    pose = [I.freeze(I.getattr_(r, k, st, None), st) for k in ('pos', 'orientation')]
    at = len(st.eff)
    v = I.call(f, [r], {}, st, None)
    if st.dead:
        ctx.violation(key, loc, 'asking whether %s may be placed fails: %s' % (ci.name, kits.dead(st)))
        return
    new = list(st.eff)[at:]
    after = [I.freeze(I.getattr_(u, k, st, None), st) for k in names]
    for k, a, b in zip(names, before, after):
        if a is not b:
            ctx.violation(key, loc, 'asking whether %s may be placed changes %s' % (ci.name, k))
            return
    if pose != [I.freeze(I.getattr_(r, k, st, None), st) for k in ('pos', 'orientation')]:
        ctx.violation(key, loc, 'asking whether %s may be placed moves the room' % ci.name)
        return
    v = I.B.truth(I, v, st) if hasattr(I.B, 'truth') else v
    for p, cs, occ, opens in cases(R, foot, mirror, orient, rng, 240 if ctx.tier == 'quick' else 600):
        env = R.env(p, occ, opens)
        why = acceptable(cs, occ)
        x = raised(new, env)
        if x is not None:
            ctx.violation(key, x.loc, '%s facing %s at %s, mirror %d: asking whether it may be placed raises an exception' % (ci.name, COMPASS[orient], p, mirror))
            return
        got = bool(evalt.ev(v, env))
        if got != (why is None):
            ctx.violation(key, loc, '%s facing %s at %s, mirror %d, is %s, though %s' % (
                ci.name, COMPASS[orient], p, mirror, 'accepted' if got else 'refused', why or 'all its cells are free and on the map'))
            return
        ctx.stat('situations_compared')
    ctx.ok(key)


def register(ctx):
    ctx.rule('register_room is evaluated for rooms at an unknown position in a manager with unknown occupied cells and open doors; when it raises and what it leaves behind are compared with the definition')
    ctx.assumption('the definition: one copy per mirror turn about cell (16, 16); cells of all copies become occupied; open doors in these cells are dropped and the doors of the copies that are free and on the map are added')

    def go():
        R = Placing(ctx)
        stories(ctx, R)
        if ctx.viol:
            return R.I
        rng = random.Random(11)
        for ci, n, vox in R.shaped(chosen(ctx, R)):
            for orient in range(4):
                for mirror, noclip in ((1, False), (2, False), (4, False), (2, True)):
                    r, foot = ready(ctx, R, ci, n, vox, orient, (True,) * n)
                    if r is None:
                        break
                    key = '%s mirror %d%s' % (name_of(R, ci, orient, ()), mirror, ' noclip' if noclip else '')
                    try:
                        register_one(ctx, R, r, foot, key, ci, orient, mirror, noclip, rng)
                    except (kits.Unknown, evalt.Unknown) as e:
                        ctx.undecided(key, 'redeclipse/upm.py', str(e)[:200])
        for mirror in (1, 2, 4):
            try:
                link_one(ctx, R, mirror)
            except (kits.Unknown, evalt.Unknown) as e:
                ctx.undecided('links, mirror %d' % mirror, 'redeclipse/upm.py', str(e)[:200])
        return R.I
    return guarded(ctx, 'upm', go)


def stories(ctx, R):
    """rooms registered one after another at known places"""
    rng = random.Random(5)
    kinds = []
    for ci, n, vox in R.shaped([c for c in chosen(ctx, R) if c[2] is None]):
        for o in range(4):
            r, foot = ready(ctx, R, ci, n, vox, o, (True,) * n)
            if r is not None:
                kinds.append((ci, n, o, foot, R.shape, R.tag))
    for i in range(36 if ctx.tier == 'quick' else 200):
        mirror = (1, 2, 4)[i % 3]
        key = 'story %d, mirror %d' % (i, mirror)
        try:
            story(ctx, R, kinds, mirror, key, rng)
        except (kits.Unknown, evalt.Unknown) as e:
            ctx.undecided(key, 'redeclipse/upm.py', str(e)[:200])
    R.shape = R.tag = None


def story(ctx, R, kinds, mirror, key, rng):
    I = R.I
    R.st = st = I.state()
    u = I.call(I.lookup(MGR), [K(256)], {'mirror': K(mirror)}, st, None)
    rooms_, used, doors, told = [], {}, [], []
    small = [k for k in kinds if len(k[3][0]) <= 2]
    for step in range(rng.randrange(3, 7)):
        ci, n, o, foot, R.shape, R.tag = rng.choice(kinds if rng.random() < .4 or not small else small)
        # somewhere near a door, or near another door of the same cell
        for _ in range(60):
            shared = [d[0] for d in doors if sum(x[0] == d[0] for x in doors) > 1]
            if shared and rng.random() < .6:        # a cell that several doors lead to
                to = rng.choice(shared)
                p = plus(to, tuple(-v for v in rng.choice(foot[0])))
            elif doors and foot[1] and rng.random() < .5:       # a door to the cell of another one
                p = plus(rng.choice(doors[-2:])[0], tuple(-v for v in rng.choice(foot[1])[0]))
            elif doors and rng.random() < .8:
                near = rng.choice(doors)[0]
                p = tuple(c + rng.choice((-2, -1, -1, 0, 0, 0, 1, 1, 2)) for c in near[:2]) + (near[2] + rng.choice((-1, 0, 0, 0)),)
            else:
                p = (rng.randrange(2, 30), rng.randrange(2, 30), rng.randrange(1, 28))
            cs = copies(foot, p, mirror, o)
            cells = [c for q in cs for c in q[2]]
            if all(legal(c) for c in cells) and len(set(cells)) == len(cells) and not set(cells) & set(used):
                break
        else:
            break
        kw = {'pos': R.vec(p), 'orientation': I.lookup(O + COMPASS[o])}
        if n:
            kw['randflags'] = st.alloc(Seq('list', tuple(('i', TRUE) for _ in range(n))))
        r = I.call(mk('cls', ci), [], kw, st, None)
        told.append('%s at %s facing %s' % (ci.name + (' (%s)' % R.tag if R.tag else ''), p, COMPASS[o]))
        f = I.getattr_(u, 'register_room', st, None)
        loc = f.args[1].args[0].loc
        at = len(st.eff)
        I.call(f, [r], {}, st, None)
        name = 'mirror %d, after registering %s' % (mirror, ', '.join(told))
        if st.dead or raised(list(st.eff)[at:], {}) is not None:
            ctx.violation(key, loc, '%s: registering fails, though no cell is in use' % name)
            return
        new = [((ci.qual, at_, DIRS[k]), cells_, drs) for at_, k, cells_, drs in cs]
        for room, cells_, _ in new:
            rooms_.append(room)
            for c in cells_:
                used[c] = room
        doors = [d for d in doors if d[0] not in used] + [(d, room, w) for room, _, drs in new for d, w in drs if legal(d) and d not in used]
        trim = Trim(R)
        occ_t, uno_t, rooms_t = [trim.value(I.getattr_(u, k, st, None)) for k in ('occupied', 'unoccupied', 'rooms')]
        got = [same_room(v) for v in evalt.ev(rooms_t, {})]
        if collections.Counter(got) != collections.Counter(rooms_):
            ctx.violation(key, loc, '%s: the rooms of the map are %s instead of %s' % (name, short_rooms(got), short_rooms(rooms_)))
            return
        m = {unvec(k): same_room(v) for k, v in evalt.ev(occ_t, {})}
        if m != used:
            c = sorted(c for c in set(m) | set(used) if m.get(c) != used.get(c))[0]
            ctx.violation(key, loc, '%s: cell %s is %s' % (name, c, 'missing from the occupied cells' if c not in m else ('occupied, but belongs to no copy' if c not in used else 'booked for another room')))
            return
        uno = [(unvec(v[0]), same_room(v[1]), unvec(v[2])) for v in evalt.ev(uno_t, {})]
        if collections.Counter(uno) != collections.Counter(doors):
            extra = [d for d in uno if uno.count(d) > doors.count(d)]
            gone = [d for d in doors if doors.count(d) > uno.count(d)]
            ctx.violation(key, loc, '%s: %s' % (name, 'the door at %s towards %s is open, though %s' % (extra[0][0], extra[0][2], 'its cell is in use' if extra[0][0] in used else 'it is outside the map, or no room has it')
                                                if extra else 'the open door at %s towards %s is lost' % (gone[0][0], gone[0][2])))
            return
        ctx.stat('rooms_registered_in_stories')
    ctx.ok(key)


def link_one(ctx, R, mirror):
    I = R.I
    key = 'links, mirror %d' % mirror
    R.st = st = I.state()
    u = I.call(I.lookup(MGR), [K(256)], {'mirror': K(mirror)}, st, None)
    p, q = [[I.sym(n + k, 'int') for k in 'xyz'] for n in 'ab']
    cls = I.lookup('redeclipse.prefabs:TestRoom')
    a, b = [I.call(cls, [], {'pos': R.vec(x), 'orientation': I.lookup(O + o)}, st, None) for x, o in ((p, 'NORTH'), (q, 'WEST'))]
    I.setattr_(u, 'links', st.alloc(Seq('list', (('i', mk('tup', R.vec((1, 2, 3)), R.vec((4, 5, 6)))),))), st, None)
    f = I.getattr_(u, 'register_link', st, None)
    loc = f.args[1].args[0].loc
    I.call(f, [a, b], {}, st, None)
    if st.dead:
        ctx.violation(key, loc, 'linking two rooms fails: %s' % kits.dead(st))
        return
    t = I.freeze(I.getattr_(u, 'links', st, None), st)
    for c, d in (((3, 5, 7), (4, 5, 7)), ((20, 1, 2), (16, 16, 9)), ((0, 31, 1), (31, 31, 31))):
        env = {**dict(zip(p, c)), **dict(zip(q, d))}
        got = [tuple(unvec(x) for x in v) for v in evalt.ev(t, env)]
        want = [((1, 2, 3), (4, 5, 6))] + [(about(c, k), about(d, k)) for k in ROT[mirror]]
        if collections.Counter(got) != collections.Counter(want):
            ctx.violation(key, loc, 'linking rooms at %s and %s leaves the links %s instead of %s' % (c, d, got, want))
            return
    ctx.ok(key)


def register_one(ctx, R, r, foot, key, ci, orient, mirror, noclip, rng):
    I, st = R.I, R.st
    u = R.manager(mirror, noclip=noclip)
    f = I.getattr_(u, 'register_room', st, None) if not st.dead else None
    if st.dead:
        ctx.undecided(key, 'redeclipse/upm.py', 'the manager cannot be built: %s' % kits.dead(st))
        return
    loc = f.args[1].args[0].loc
    flags = I.getattr_(r, '_randflags', st, None, quiet=True)
    at = len(st.eff)
    I.call(f, [r], {}, st, None)
    if st.dead:
        ctx.violation(key, loc, 'registering %s always fails: %s' % (ci.name, kits.dead(st)))
        return
    new = list(st.eff)[at:]
    trim = Trim(R)
    occ_t, uno_t, rooms_t = [trim.value(I.getattr_(u, k, st, None)) for k in ('occupied', 'unoccupied', 'rooms')]
    name = '%s facing %s, mirror %d' % (ci.name, COMPASS[orient], mirror)
    for p, cs, occ, opens in cases(R, foot, mirror, orient, rng, 160 if ctx.tier == 'quick' else 600):
        env = R.env(p, occ, opens)
        ids = [('tup', (ci.qual, R.key(at_), o)) for at_, o, _, _ in cs]
        taken = set(occ)
        clash = None
        for _, _, cells, _ in cs:
            for c in cells:
                if c in taken and clash is None:
                    clash = c
            taken |= set(cells)
        x = raised(new, env)
        if (x is not None) != (clash is not None and not noclip):
            ctx.violation(key, x.loc if x is not None else loc, '%s at %s: %s' % (
                name, p, 'registering fails, though no cell is in use' if x is not None else 'registering succeeds, though cell %s is in use' % (clash,)))
            return
        ctx.stat('situations_compared')
        if x is not None:
            continue
        got = [same_room(v) for v in evalt.ev(rooms_t, env)]
        want = [(ci.qual, at_, DIRS[o]) for at_, o, _, _ in cs]
        if collections.Counter(got) != collections.Counter(want):
            bad_ = [w for w in got if w not in want] or [w for w in want if w not in got]
            ctx.violation(key, loc, '%s at %s: the rooms of the map are %s instead of %s' % (name, p, short_rooms(got), short_rooms(want)))
            return
        m = {}
        for k, v in evalt.ev(occ_t, env):
            m[unvec(k)] = v
        if set(m) != taken:
            c = sorted(set(m) ^ taken)[0]
            ctx.violation(key, loc, '%s at %s: cell %s is %s' % (name, p, c, 'missing from the occupied cells' if c in taken else 'occupied, but belongs to no copy'))
            return
        for c, v in m.items():
            own = [w for w, (_, _, cells, _) in zip(want, cs) if c in cells]
            if own and same_room(v) not in own or not own and v != ('old', c):
                ctx.violation(key, loc, '%s at %s: cell %s belongs to %s instead of %s' % (name, p, c, short_rooms([same_room(v)]), short_rooms(own)))
                return
        # open doors
        rest = [(tuple(q), ('stub', 'open%d' % i), DIRS[i % 4]) for i, q in enumerate(opens)]
        free = []
        for (at_, rm, d) in rest:
            if not any(at_ in cells for _, _, cells, _ in cs):
                free.append((at_, rm, d))
        sofar = set(occ)
        for i, (w, (_, _, cells, drs)) in enumerate(zip(want, cs)):
            sofar |= set(cells)
            later = {c for _, _, cells2, _ in cs[i + 1:] for c in cells2}
            for d, o in drs:
                if legal(d) and d not in sofar and d not in later:
                    free.append((d, w, o))
        uno = []
        for v in evalt.ev(uno_t, env):
            if not isinstance(v, tuple) or len(v) != 3:
                raise kits.Unknown('open door %s' % (v,))
            uno.append((unvec(v[0]), tuple(v[1]) if v[1][:1] == ('stub',) else same_room(v[1]), unvec(v[2])))
        if collections.Counter(uno) != collections.Counter(free):
            extra = [d for d in uno if uno.count(d) > free.count(d)]
            gone = [d for d in free if free.count(d) > uno.count(d)]
            ctx.violation(key, loc, '%s at %s: %s' % (name, p, 'the door at %s towards %s is open, though %s' % (
                extra[0][0], extra[0][2], 'its cell is in use' if extra[0][0] in taken else ('it is outside the map' if not legal(extra[0][0]) else 'no copy has it (or it is listed twice)')) if extra
                else 'the open door at %s towards %s is lost' % (gone[0][0], gone[0][2])))
            return
    if flags is not None:
        want = I.freeze(flags, st)
        for ref in R.items(I.getattr_(u, 'rooms', st, None)) or ():
            w = I.getattr_(ref, '_randflags', st, None, quiet=True)
            if w is None or I.freeze(w, st) is not want:
                ctx.violation(key, loc, '%s: the copies have other flags than the room' % name)
                return
    ctx.ok(key)


def same_room(v):
    if isinstance(v, tuple) and len(v) == 4 and isinstance(v[0], str):
        return (v[0], unvec(v[1]), unvec(v[2]))
    return v


def short_rooms(l):
    return '[' + ', '.join('%s at %s towards %s' % (v[0].split(':')[-1], v[1], v[2]) if isinstance(v, tuple) and len(v) == 3 else str(v) for v in l) + ']'


# ---------------------------------------------------------------- joining rooms
def other_flags(n):
    """the combinations of flags used in the quick tier"""
    return [tuple(f(i) for i in range(n)) for f in ((lambda i: True), (lambda i: False), (lambda i: i % 2 == 0))][:3 if n > 1 else 2] if n else [()]


def prev_room(R, at, d):
    """a room whose open door leads to the cell `at` in direction d"""
    I, st = R.I, R.st
    cls = [v for v in [R.I.lookup('redeclipse.prefabs:' + k) for k in ('TestRoom', 'SpawnRoom', 'Corridor4way')] if v is not None and v.op == 'cls']
    return I.call(cls[0], [], {'pos': R.vec([sub(a, K(b)) for a, b in zip(at, d)]), 'orientation': I.lookup(O + 'EAST')}, st, None)


def join(ctx):
    ctx.rule('room_localization is evaluated for every room class, all directions of the open door, an unknown place of the door and unknown occupied cells; the rooms it offers are compared with those placements '
             'that join a door of the room to the open door and that may be placed')
    ctx.assumption('random permutations are represented by one order; random options of the room by the combinations of flags named in the obligations')

    def go():
        R = Placing(ctx)
        R.I.intrinsics[MGR + '.preregister_room'] = R.fits
        rng = random.Random(13)
        for ci, n, vox in R.shaped(R.classes()):
            for flags in (variants(n) if ctx.tier == 'thorough' else other_flags(n)):
                feet = []
                for o in range(4):
                    R.given = flags
                    r, foot = ready(ctx, R, ci, n, vox, o, flags)
                    feet.append(foot)
                if any(f is None for f in feet):
                    break
                for d in range(4):
                    mirror = (1, 2, 4)[d % 3] if ctx.tier == 'quick' else (1, 2, 4)
                    for m in (mirror if isinstance(mirror, tuple) else (mirror,)):
                        key = '%s%s at a door towards %s, mirror %d' % (ci.name + (' (%s)' % R.tag if R.tag else ''), '/' + ''.join('01'[f] for f in flags) if flags else '', COMPASS[d], m)
                        R.order = d % 3
                        try:
                            join_one(ctx, R, ci, n, vox, flags, feet, d, m, key, rng)
                        except (kits.Unknown, evalt.Unknown) as e:
                            ctx.undecided(key, 'redeclipse/upm.py', str(e)[:200])
        return R.I
    return guarded(ctx, 'upm', go)


def situation(R):
    I = R.I
    R.st = I.state()
    R.p = [I.sym('door' + k, 'int') for k in 'xyz']


def join_one(ctx, R, ci, n, vox, flags, feet, d, mirror, key, rng):
    I = R.I
    R.current = ci
    situation(R)
    st = R.st
    R.asked = []
    u = R.manager(mirror)
    W = DIRS[d]
    prev = prev_room(R, R.p, W)
    f = I.getattr_(u, 'room_localization', st, None) if not st.dead else None
    if st.dead:
        ctx.undecided(key, 'redeclipse/upm.py', 'the manager cannot be built: %s' % kits.dead(st))
        return
    loc = f.args[1].args[0].loc
    at = len(st.eff)
    got = I.call(f, [st.alloc(Seq('list', (('i', mk('cls', ci)),))), R.vec(R.p), prev, I.lookup(O + COMPASS[d])], {}, st, None)
    if st.dead:
        ctx.violation(key, loc, 'looking for a place for %s fails: %s' % (ci.name, kits.dead(st)))
        return
    new = list(st.eff)[at:]
    t = Trim(R).value(got)
    back = DIRS[(d + 2) % 4]
    cand = []
    for o, foot in enumerate(feet):
        for off, w in foot[1]:
            if tuple(w) == back:
                cand.append((o, tuple(b - c for b, c in zip(back, off)), foot))      # position relative to the cell behind the open door
    for i in range(12 if ctx.tier == 'quick' else 60):
        span = [v for _, rel, foot in cand for v in rel] + [0]
        ext = 4 + max(map(abs, span))
        D = [rng.randrange(min(ext, 15), max(SIDE - ext, 17)) for _ in range(3)]
        if i % 3 == 1:
            D[rng.randrange(3)] = rng.choice((0, 1, 2, 3, SIDE - 3, SIDE - 2, SIDE - 1))
        D = tuple(D)
        rooms_ = [(o, plus(D, rel), foot) for o, rel, foot in cand]
        near = sorted({c for o, q, foot in rooms_ for a in copies(foot, q, mirror, o) for c in a[2]})
        occ = set()
        if near and i % 4 in (1, 2):
            occ = set(rng.sample(near, min(len(near), rng.choice((1, 1, 2, 5)))))
        elif near and i % 4 == 3:
            occ = {c for c in near if c != D and rng.random() < .3}
        env = R.env(D, occ, [(0, 0, 0)] * 2)
        for b, q in R.asked:
            qual, at_, ori = same_room(evalt.ev(q, env))
            foot = feet[DIRS.index(ori)]
            env[b] = acceptable(copies(foot, tuple(a - s for a, s in zip(at_, foot[2])), mirror, DIRS.index(ori)), occ) is None
        x = raised(new, env)
        if x is not None:
            ctx.violation(key, x.loc, '%s at a door towards %s that leads to %s: looking for a place raises an exception' % (ci.name, COMPASS[d], D))
            return
        want = {}
        for o, q, foot in rooms_:
            if acceptable(copies(foot, q, mirror, o), occ) is None:
                want[(ci.qual, plus(q, foot[2]), DIRS[o])] = 1
        have = []
        for v in evalt.ev(t, env):
            w = same_room(v)
            have.append(w)
            if w not in want:
                mine = [copies(foot, q, mirror, o) for o, q, foot in rooms_ if w == (ci.qual, plus(q, foot[2]), DIRS[o])]
                ctx.violation(key, loc, 'the open door towards %s leads to cell %s: %s is offered, %s' % (
                    COMPASS[d], D, short_rooms([w]), 'though it may not be placed there: %s' % acceptable(mine[0], occ)
                    if mine else 'which has no door that joins the open door'))
                return
            if flags and isinstance(v, tuple) and len(v) == 4 and tuple(map(bool, v[3])) != tuple(map(bool, flags)):
                ctx.violation(key, loc, '%s is offered with the flags %s instead of the options drawn for it, %s' % (ci.name, v[3], flags))
                return
        if len(set(have)) != len(have):
            ctx.violation(key, loc, 'the open door towards %s leads to cell %s: the same placement of %s is offered twice' % (COMPASS[d], D, ci.name))
            return
        gone = set(want) - set(have)
        if gone:
            ctx.violation(key, loc, 'the open door towards %s leads to cell %s: %s fits, but is not offered' % (COMPASS[d], D, short_rooms([sorted(gone)[0]])))
            return
        ctx.stat('situations_compared')
        ctx.stat('placements_compared', len(have))
    ctx.ok(key)




# ---------------------------------------------------------------- the placing loop
class Script:
    """stand-ins for the operations that the placing loop calls; they follow a script and record what they are asked for"""
    def __init__(self, R, doors, fits, grow, pick):
        self.R, self.fits, self.grow, self.pick = R, fits, grow, pick
        self.log = []
        self.dead = set()
        self.n = 0
        self.made = 0
        self.mirror = 1

    def ids(self, t):
        """name of a stub room or of a door entry"""
        o = self.R.st.obj(t) if t.op == 'ref' else None
        if isinstance(o, Inst) and 'pos' in o.fields and iskt(o.fields['pos'], 'str'):
            return kv(o.fields['pos'])
        return None

    def stub(self, name, st):
        return st.alloc(Inst(None, {'pos': K(name)}, where='room'))

    def entries(self, I, u, st):
        o = st.obj(I.getattr_(u, 'unoccupied', st, None))
        if not isinstance(o, Seq) or not all(p[0] == 'i' and p[1].op == 'tup' and len(p[1].args) == 3 for p in o.pieces):
            raise kits.Unknown('the open doors are no list of triples')
        return [p[1] for p in o.pieces]

    def name(self, I, d, st):
        v = I.freeze(d, st)
        return tuple(int(kv(x)) for x in dict(v.args[1]).values() if isnum(x)) if v.op == 'obj' else None

    def nonrandom(self, I, args, kw, st, node):
        self.R.st = st
        es = self.entries(I, args[0], st)
        if not es:
            return I.fail(st, 'Exception', 'No more space!', node)
        e = es[self.pick(self.n) % len(es)]
        self.n += 1
        self.log.append(('door', self.name(I, e.args[0], st), self.ids(e.args[1]), self.name(I, e.args[2], st), len(es)))
        return e

    def localization(self, I, args, kw, st, node):
        self.R.st = st
        a = list(args[1:]) + [kw[k] for k in ('possible_rooms', 'prev_room_door', 'prev_room', 'prev_room_orientation')[len(args) - 1:] if k in kw]
        if len(a) != 4:
            return None
        d = self.name(I, a[1], st)
        n = self.fits(d)
        out = []
        for i in range(n):
            out.append('room%d' % self.made)
            self.made += 1
        self.log.append(('look', a[0], d, self.ids(a[2]), self.name(I, a[3], st), tuple(out)))
        return st.alloc(Seq('list', tuple(('i', self.stub(k, st)) for k in out)))

    def register(self, I, args, kw, st, node):
        self.R.st = st
        u = args[0]
        r = args[1] if len(args) > 1 else kw.get('room')
        if r is None:
            return None
        k = self.ids(r)
        self.log.append(('register', k))
        last = [x for x in self.log if x[0] == 'look']
        es = [e for e in self.entries(I, u, st) if not last or self.name(I, e.args[0], st) != last[-1][2]]
        for i in range(self.grow(k)):
            es.append(mk('tup', self.R.vec((100 + len(self.log), i, 1)), r, self.R.vec(DIRS[i % 4])))
        I.setattr_(u, 'unoccupied', st.alloc(Seq('list', tuple(('i', e) for e in es))), st, None)
        self.append(I, u, 'rooms', [r] + [self.stub(k, st) for _ in range(self.mirror - 1)], st)
        return NONE

    def append(self, I, u, name, vs, st):
        v = I.getattr_(u, name, st, None, quiet=True)
        o = st.obj(v) if v is not None else None
        if isinstance(o, Seq):
            I.setattr_(u, name, st.alloc(Seq('list', o.pieces + tuple(('i', x) for x in vs))), st, None)

    def link(self, I, args, kw, st, node):
        self.R.st = st
        a = list(args[1:]) + [kw[k] for k in ('room_a', 'room_b')[len(args) - 1:] if k in kw]
        self.log.append(('link',) + tuple(self.ids(x) for x in a))
        self.append(I, args[0], 'links', [mk('tup', *a)] * self.mirror, st)
        return NONE


SCRIPTS = (
    # doors at the start, how many rooms fit at a door, doors added by a room, which door is picked
    ('every room fits', 2, lambda d: 1, lambda k: 2, lambda n: 0),
    ('several fit', 2, lambda d: 3, lambda k: 1, lambda n: n),
    ('nothing fits', 3, lambda d: 0, lambda k: 0, lambda n: n * 2 + 1),
    ('every second door is blocked', 3, lambda d: d[1] % 2, lambda k: 2, lambda n: n * 3),
    ('doors run out', 2, lambda d: 2, lambda k: 0, lambda n: 1),
    ('no door', 0, lambda d: 1, lambda k: 1, lambda n: 0),
    ('first doors are blocked', 4, lambda d: 0 if d[0] < 50 and d[1] < 3 else 2, lambda k: 3, lambda n: 0),
    ('doors share cells', 6, lambda d: 0, lambda k: 0, lambda n: n),
)
# the doors at the start: cell, room, direction
APART = lambda i: ((i, i + 1, 2), i, i)
SHARED = lambda i: ((1, 1, 2), (0, 0, 1, 1, 2, 2)[i], (0, 1, 0, 1, 0, 2)[i])


def place(ctx):
    ctx.rule('place_rooms is evaluated with stand-ins for choosing a door, finding rooms for it and registering them, which follow scripts (rooms fit, none fits, doors run out, doors are blocked); '
             'the order in which it calls them is compared with the definition')
    ctx.assumption('the definition: as long as fewer rooms are placed than asked for and a door is open, choose a door and look for rooms that fit there; register the first that is offered (it counts once per mirror copy) '
                   'and link it to the room of the door, or drop the door when nothing is offered')

    def go():
        R = Placing(ctx)
        R.I.cfg['unroll_true'] = 60
        for name, n, fits, grow, pick in SCRIPTS:
            for mirror in (1, 2, 4):
                for want in (0, 1, 4, 7):
                    key = '%s, mirror %d, %d rooms' % (name, mirror, want)
                    try:
                        place_one(ctx, R, key, n, fits, grow, pick, mirror, want)
                    except (kits.Unknown, evalt.Unknown) as e:
                        ctx.undecided(key, 'redeclipse/upm.py', str(e)[:200])
        return R.I
    return guarded(ctx, 'upm', go)


def place_one(ctx, R, key, n, fits, grow, pick, mirror, want):
    I = R.I
    R.st = st = I.state()
    u = I.call(I.lookup(MGR), [K(256)], {'mirror': K(mirror)}, st, None)
    S = Script(R, n, fits, grow, pick)
    S.mirror = mirror
    rows = []
    stubs = [S.stub('old%d' % i, st) for i in range(n)]
    S.append(I, u, 'rooms', stubs, st)
    for i in range(n):
        cell, rm, d = (SHARED if 'share' in key else APART)(i)
        rows.append(('i', mk('tup', R.vec(cell), stubs[rm], R.vec(DIRS[d % 4]))))
    I.setattr_(u, 'unoccupied', st.alloc(Seq('list', tuple(rows))), st, None)
    for k, h in (('nonrandom_position', S.nonrandom), ('random_position', S.nonrandom), ('room_localization', S.localization), ('register_room', S.register), ('register_link', S.link)):
        I.intrinsics[MGR + '.' + k] = h
    f = I.getattr_(u, 'place_rooms', st, None)
    loc = f.args[1].args[0].loc
    rooms_ = st.alloc(Seq('list', (('i', mk('cls', R.base)),)))
    I.call(f, [FALSE, rooms_], {'rooms': K(want)}, st, None)
    if st.dead:
        ctx.violation(key, loc, 'placing rooms (%s) fails: %s' % (key, kits.dead(st)))
        return
    lost = [e.kind for e, _ in walk(st.eff) if e.kind in ('loop', 'if', 'top', 'try')]
    if lost and (S.n < 40 or set(lost) - {'loop'}):
        raise kits.Unknown('the placing loop is not followed (%s)' % lost[0])
    # (a loop that still runs after 40 doors is compared as far as it was followed)
    # replay the definition
    count, es, log, why = 0, n, list(S.log), None
    blocked = set()
    while count < want and es and why is None:
        if lost and len(log) < 6:
            raise kits.Unknown('the placing loop does not end')
        if len(log) < 2 or log[0][0] != 'door' or log[1][0] != 'look':
            why = 'no room is looked for, though %d of %d rooms are placed and %d doors are open' % (count, want, es)
            break
        (_, d, prev, o, m), (_, offered, d2, prev2, o2, found) = log[:2]
        log = log[2:]
        if (d, prev, o) in blocked:
            why = 'a door where nothing fits is tried again'
        elif m != es:
            why = '%d doors are open instead of %d' % (m, es)
        elif (d, prev, o) != (d2, prev2, o2):
            why = 'rooms are looked for at the door %s of %s towards %s, but the door %s of %s towards %s was chosen' % (d2, prev2, o2, d, prev, o)
        elif offered is not rooms_:
            why = 'other rooms are offered than asked for'
        elif found:
            if not any(log[:2] in ([('register', k), ('link', prev, k)], [('link', prev, k), ('register', k)]) for k in found):
                why = 'after %s fits at a door of %s, %s follows instead of registering it and linking it to %s' % (found[0], prev, log[:2] or 'nothing', prev)
            log = log[2:]
            es += grow(found[0]) - 1
            count += mirror
        else:
            blocked.add((d, prev, o))
            es -= 1
    if why is None and log:
        why = '%s follows, though %s' % (log[0][:1], 'enough rooms are placed' if count >= want else 'no door is open')
    ctx.require(why is None, key, loc, 'placing rooms (%s): %s' % (key, why))
    ctx.stat('calls_compared', len(S.log))


# ---------------------------------------------------------------- end caps
def caps(ctx):
    ctx.rule('endcap is evaluated with two open doors at unknown places, unknown occupied cells and one or two classes of caps; the rooms it adds are compared with the placements that join a door of the cap to an open door, '
             'lie inside the map and use no occupied cell')
    ctx.assumption('classes of caps have at most one door towards each side; random permutations are represented by one order')

    def go():
        R = Placing(ctx)
        rng = random.Random(17)
        feet, good = {}, []
        for ci, n, vox in R.classes():
            l = []
            for o in range(4):
                r, foot = ready(ctx, R, ci, 0, vox, o, ())
                if foot is None or len({w for _, w in foot[1]}) != len(foot[1]):
                    break
                l.append(foot)
            if len(l) == 4:
                feet[ci] = l
                good.append(ci)
        one = [c for c in good if len(feet[c][0][1]) == 1]
        ctx.stat('cap_classes', len(one))
        rest = [c for c in good if c not in one]
        small = [c for c in rest if len(feet[c][0][0]) == 1]
        if ctx.tier == 'thorough':
            todo = [[c] for c in one + rest] + [[a, b] for a, b in zip(one, one[1:] + one[:1])] + [[a, b] for a, b in zip(one, small)]
        else:
            todo = [[c] for c in one[::2] + small[:3]] + [[a, b] for a, b in zip(one[:3], one[1:3] + small[1:2])]
        for i, l in enumerate(todo):
            for d in (range(4) if ctx.tier == 'thorough' or len(l) == 1 and l[0] in small else (i % 4, (i + 2) % 4)):
                key = '%s at doors towards %s' % (' or '.join(c.name for c in l), COMPASS[d])
                if len(l) == 1:
                    key += ' and %s' % COMPASS[(d + 1 + i % 3) % 4]
                R.order = (d + i) % 3
                try:
                    cap_one(ctx, R, l, feet, (d, (d + 1 + i % 3) % 4)[:3 - len(l)], key, rng, False)
                except (kits.Unknown, evalt.Unknown) as e:
                    ctx.undecided(key, 'redeclipse/upm.py', str(e)[:200])
        for ci, n, vox in R.shaped([]):
            own = {ci: []}
            for o in range(4):
                r, foot = ready(ctx, R, ci, 0, vox, o, ())
                own[ci].append(foot)
            if R.tag not in ('long', 'distant doors') or any(f is None for f in own[ci]):
                continue
            for d in range(4):
                for d2 in (range(4) if ctx.tier == 'thorough' else ((d + 1 + d % 2) % 4,)):
                    key = 'caps (%s) at doors towards %s and %s' % (R.tag, COMPASS[d], COMPASS[d2])
                    R.order = d % 3
                    try:
                        cap_one(ctx, R, [ci], own, (d, d2), key, rng, False)
                    except (kits.Unknown, evalt.Unknown) as e:
                        ctx.undecided(key, 'redeclipse/upm.py', str(e)[:200])
        for d in range(4):
            key = 'debug caps at doors towards %s and %s' % (COMPASS[d], COMPASS[(d + 1) % 4])
            try:
                cap_one(ctx, R, [], feet, (d, (d + 1) % 4), key, rng, True)
            except (kits.Unknown, evalt.Unknown) as e:
                ctx.undecided(key, 'redeclipse/upm.py', str(e)[:200])
        return R.I
    return guarded(ctx, 'upm', go)


def cap_one(ctx, R, classes, feet, dirs, key, rng, debug):
    I = R.I
    R.st = st = I.state()
    R.p = [I.sym('door' + k, 'int') for k in 'xyz']
    q2 = [I.sym('next' + k, 'int') for k in 'xyz']
    R.current = classes[0] if classes else None
    R.models.clear()
    R.given = None
    for c in classes:
        R.models[c] = list(R.rows)
    u = R.manager(1, opens=0)
    rows = []
    for at, d in list(zip((R.p, q2), dirs)):
        rows.append(('i', mk('tup', R.vec(at), prev_room(R, at, DIRS[d]), I.lookup(O + COMPASS[d]))))
    I.setattr_(u, 'unoccupied', st.alloc(Seq('list', tuple(rows))), st, None)
    f = I.getattr_(u, 'endcap', st, None)
    loc = f.args[1].args[0].loc
    at = len(st.eff)
    kw = {'debug': TRUE} if debug else {'debug': FALSE, 'possible_endcaps': st.alloc(Seq('list', tuple(('i', mk('cls', c)) for c in classes)))}
    I.call(f, [], kw, st, None)
    if st.dead:
        ctx.violation(key, loc, 'adding caps (%s) fails: %s' % (key, kits.dead(st)))
        return
    new = list(st.eff)[at:]
    trim = Trim(R)
    occ_t, rooms_t = [trim.value(I.getattr_(u, k, st, None)) for k in ('occupied', 'rooms')]
    for i in range(24 if ctx.tier == 'quick' else 100):
        D = [tuple(rng.choice((0, 1, 2, 3, 5, 12, 17, SIDE - 2, SIDE - 1)) if i % 3 == 0 else rng.randrange(6, SIDE - 6) for _ in range(3))]
        D.append(D[0] if i % 5 == 4 else plus(D[0], rng.choice(((1, 0, 0), (0, 2, 0), (1, 1, 0), (0, 0, 1), (-1, 0, 0), (3, -1, 0)))))
        if not legal(D[1]):
            continue
        span = {}
        for c in classes:
            for o in range(4):
                for off, w in feet[c][o][1]:
                    for k in range(len(dirs)):
                        if tuple(w) == DIRS[(dirs[k] + 2) % 4]:
                            at_ = tuple(x + b - y for x, b, y in zip(D[k], DIRS[(dirs[k] + 2) % 4], off))
                            span.setdefault((c.qual, plus(at_, feet[c][o][2]), DIRS[o], k), [plus(at_, q) for q in feet[c][o][0]])
        near = sorted({q for l in span.values() for q in l} - set(D))
        occ = set()
        if near and i % 4 in (1, 2):
            occ = set(rng.sample(near, 1 if i % 4 == 1 else min(3, len(near))))
        env = R.env(D[0], occ)
        env.update(zip(q2, D[1]))
        x = raised(new, env)
        what = 'with open doors to ' + ' and '.join('%s (towards %s)' % (D[k], COMPASS[dirs[k]]) for k in range(len(dirs)))
        D = D[:len(dirs)]
        if x is not None:
            ctx.violation(key, x.loc, '%s, adding caps raises an exception' % what)
            return
        got = [same_room(v) for v in evalt.ev(rooms_t, env)]
        taken = set(occ)
        if debug:
            want = list(dict.fromkeys(D))
            if [g[1] for g in got] != want:
                ctx.violation(key, loc, '%s, debug caps are placed at %s' % (what, [g[1] for g in got]))
                return
            taken |= set(want)
        else:
            left = list(got)
            for k in range(len(dirs)):
                fit = [(s, l) for s, l in span.items() if s[3] == k and all(legal(q) and q not in taken for q in l)]
                mine = [(s, l) for s, l in fit if left and s[:3] == left[0]]
                if fit and not mine:
                    ctx.violation(key, loc, '%s, %s is added%s; %s would fit at the %s door' % (what, short_rooms(left[:1]) if left else 'no cap', ', which does not join it or does not fit' if left else '', short_rooms([fit[0][0][:3]]), ('first', 'second')[k]))
                    return
                if mine:
                    taken |= set(mine[0][1])
                    left = left[1:]
                    ctx.stat('caps_compared')
            if left:
                ctx.violation(key, loc, '%s, %s is added, which joins no open door or does not fit' % (what, short_rooms(left[:1])))
                return
        m = {unvec(k) for k, v in evalt.ev(occ_t, env)}
        if m != taken:
            ctx.violation(key, loc, '%s, the occupied cells differ at %s after adding caps' % (what, sorted(m ^ taken)[0]))
            return
        ctx.stat('situations_compared')
    ctx.ok(key)


# ---------------------------------------------------------------- random choices
WEIGHTS = ((1, 0, 5, 2), (3,), (0, 0, 4), (2, 2, 2, 2), (7, 1, 0), (Fraction(1, 2), Fraction(1, 4), Fraction(5, 4)), (1, 30, 1))


def drawn_parts(v, n):
    """valuations of the random number in a term that split its range into n equal parts, and its ends"""
    ats = random_terms(v)
    rs = sorted({a for a in ats if a.op == 'ret' or a.op == 'rndidx'}, key=str)
    if len(rs) != 1 or len(ats) != 1:
        raise kits.Unknown('the choice depends on %s' % ([show(a)[:60] for a in ats],))
    a = rs[0]
    if a.op == 'rndidx':
        return a, None, None
    f = a.args[0].args[0] if a.args[0].op == 'ext' else None
    xs = a.args[1]
    if f == 'random.random':
        lo, hi = 0, 1
    elif f == 'random.uniform' and len(xs) == 2 and all(isnum(x) for x in xs):
        lo, hi = kv(xs[0]), kv(xs[1])
    else:
        raise kits.Unknown('random numbers of %s' % f)
    lo, hi = Fraction(lo), Fraction(hi)
    return a, [lo + (hi - lo) * Fraction(2 * i + 1, 2 * n) for i in range(n)], (lo + (hi - lo) / 10 ** 9, hi)


def random_terms(v):
    """the unknown quantities in a value"""
    out = set()
    for a in evalt.atoms(v):
        if a.op == 'obj':
            for _, x in a.args[1]:
                out |= random_terms(x)
        else:
            out.add(a)
    return out


def choices(ctx):
    ctx.rule('the weighted choice, the choice of an open door, the stream of room classes and the transition probabilities are evaluated for lists of weights, open doors, rooms and tables; '
             'the share of the random range that leads to each element is compared with its weight')
    ctx.assumption('random.uniform and random.random are uniform; shares are measured on a grid that every boundary between elements falls on or between')

    def go():
        R = Placing(ctx)
        for part in (weighted, pick_door, stream, tables):
            try:
                part(ctx, R)
            except (kits.Unknown, evalt.Unknown) as e:
                ctx.undecided(part.__name__, 'redeclipse/upm.py', str(e)[:200])
        return R.I
    return guarded(ctx, 'upm', go)


def shares(ctx, key, loc, v, weights, names, val):
    """compare the shares of the random range with the weights"""
    total = sum(weights)
    unit = 4
    n = int(total * unit)
    while n > 4000:
        n //= 7
    exact = n == total * unit
    a, parts, ends = drawn_parts(v, n)
    if parts is None:
        raise kits.Unknown('random.choice')
    seen = collections.Counter(val(evalt.ev(v, {a: r})) for r in parts)
    for x in ends:
        w = val(evalt.ev(v, {a: x}))
        if w not in names:
            ctx.violation(key, loc, 'when the random number is at the end of its range, %s is chosen' % (w,))
            return
    for nm, w in zip(names, weights):
        if abs(seen.get(nm, 0) - n * Fraction(w) / Fraction(total)) > (0 if exact else 1):
            ctx.violation(key, loc, '%s with weight %s of %s is chosen in %s of %s of the random range' % (nm, w, total, seen.get(nm, 0), n))
            return
    if set(seen) - set(names):
        ctx.violation(key, loc, '%s is chosen' % (sorted(set(seen) - set(names), key=str)[0],))
        return
    ctx.stat('shares_compared', len(names))
    ctx.ok(key)


def weighted(ctx, R):
    I = R.I
    for ws in WEIGHTS:
        R.st = st = I.state()
        f = I.getattr_(I.lookup(MGR), 'weighted_choice', st, None)
        loc = f.args[1].args[0].loc
        names = ['choice %d' % i for i in range(len(ws))]
        key = 'weights %s' % (list(map(str, ws)),)
        v = I.call(f, [st.alloc(Seq('list', tuple(('i', mk('tup', K(a), K(w))) for a, w in zip(names, ws))))], {}, st, None)
        if st.dead:
            ctx.violation(key, loc, 'choosing fails: %s' % kits.dead(st))
            continue
        if v.op == 'k':
            ctx.require(len(ws) == 1 and kv(v) == names[0], key, loc, '%s is always chosen' % (kv(v),))
            continue
        shares(ctx, key, loc, v, ws, names, lambda x: x)


FLAVOURS = {'nrp_flavour_plain': lambda x, y, z: 1, 'nrp_flavour_vertical': lambda x, y, z: z ** 5,
            'nrp_flavour_center_hole': lambda x, y, z: abs(x - 128) ** 5 + abs(y - 128) ** 5}
DOORS = ((1, 2, 1), (3, 5, 3), (4, 1, 0), (30, 31, 2))


def pick_door(ctx, R):
    I = R.I
    for flav in (None,) + tuple(FLAVOURS):
        for n in (len(DOORS), 1, 0):
            R.st = st = I.state()
            u = R.manager(1, opens=0)
            rows = [mk('tup', R.vec(c), st.alloc(Inst(None, {'pos': K('r%d' % i)}, where='room')), R.vec(DIRS[i % 4])) for i, c in enumerate(DOORS[:n])]
            I.setattr_(u, 'unoccupied', st.alloc(Seq('list', tuple(('i', r) for r in rows))), st, None)
            f = I.getattr_(u, 'nonrandom_position' if flav else 'random_position', st, None)
            loc = f.args[1].args[0].loc
            key = '%s of %d open doors' % (flav or 'any', n)
            args = [I.getattr_(u, flav, st, None)] if flav else []
            v = I.call(f, args, {}, st, None)
            if n == 0:
                ctx.require(st.dead is not None, key, loc, 'a door is chosen, though none is open')
                continue
            if st.dead:
                ctx.violation(key, loc, 'choosing a door fails: %s' % kits.dead(st))
                continue
            names = [unvec(R.key(c)) for c in DOORS[:n]]
            t = Trim(R).value(v)

            def val(x):
                return unvec(x[0]) if isinstance(x, tuple) and len(x) == 3 else x
            if flav is None:
                ats = sorted(random_terms(t), key=str)
                if len(ats) == 1 and ats[0].op == 'rndidx':
                    got = [val(evalt.ev(t, {ats[0]: i})) for i in range(n)]
                    ctx.require(sorted(got) == sorted(names), key, loc, 'choosing an open door yields %s' % (got,))
                    continue
                if not ats:
                    ctx.require(n == 1 and val(evalt.ev(t, {})) == names[0], key, loc, 'choosing an open door always yields the same')
                    continue
                ws = [1] * n
            else:
                ws = [FLAVOURS[flav](*c) for c in DOORS[:n]]
            if not random_terms(t):
                ctx.require(n == 1 and val(evalt.ev(t, {})) == names[0], key, loc, 'choosing an open door always yields the same')
                continue
            shares(ctx, key, loc, t, ws, names, val)


# transition probabilities of a room that is not in the tables; other kinds of rooms count 0.1
OTHER = ({'hallway': Fraction(1, 50), 'stair': Fraction(1, 2)}, {'vertical': Fraction(7, 10), 'platform': Fraction(1, 5)}, {})


def given_table(I, args, kw, st, node):
    R = I.placing
    if R.table is None:
        return None
    R.asked_table = True
    return st.alloc(Dic(tuple(('i', (K(k), K(v))) for k, v in R.table.items())))


def stream(ctx, R):
    I = R.I
    I.placing = R
    R.table = None
    I.cfg['unroll'] = 2000
    I.intrinsics[ROOM + '.get_transition_probs'] = given_table
    every = R.classes()
    types = {}
    R.st = I.state()
    for ci, n, vox in every:
        ty = I.getattr_(mk('cls', ci), 'room_type', R.st, None)
        types.setdefault(kv(ty) if iskt(ty, 'str') else None, []).append((ci, n, vox))
    lists = [[ci for ci, _, _ in every], [l[0][0] for l in types.values()], [every[0][0]]]
    runs = [(ty, l[0], None) for ty, l in sorted(types.items(), key=str)]
    runs += [('a room of its own kind (%d)' % i, every[0], t) for i, t in enumerate(OTHER)]
    for ty, (ci, n, vox), table in runs:
        for i, offer in enumerate(lists):
            for order in (0, 1):
                R.order = order
                R.table, R.asked_table = table, False
                key = 'after %s, %d classes, order %d' % (ty, len(offer), order)
                prev = R.build(ci, vox, n, 0, (True,) * n)
                st = R.st
                if prev is None or st.dead:
                    ctx.undecided(key, where(ci), 'building the room fails')
                    continue
                u = I.call(I.lookup(MGR), [K(256)], {}, st, None)
                f = I.getattr_(u, 'random_room_stream', st, None)
                loc = f.args[1].args[0].loc
                R.population = None
                v = I.call(f, [prev, st.alloc(Seq('list', tuple(('i', mk('cls', c)) for c in offer)))], {}, st, None)
                if st.dead:
                    ctx.violation(key, loc, 'listing the rooms that may follow %s fails: %s' % (ci.name, kits.dead(st)))
                    continue
                got = [x.args[0] for x in plain_values(I, st, v) if x.op == 'cls']
                if collections.Counter(got) != collections.Counter(offer):
                    more = [c for c in offer if c not in got]
                    ctx.violation(key, loc, 'after %s, %s' % (ci.name, '%s is never tried' % more[0].name if more else 'a room is tried twice'))
                    continue
                if R.population is not None and R.asked_table == (table is not None):
                    p = transition(R, prev)
                    if p is not None:
                        w = {c: p.get(kv(I.getattr_(mk('cls', c), 'room_type', st, None)), Fraction(1, 10)) for c in offer}
                        times = collections.Counter(x.args[0] for x in R.population if x.op == 'cls')
                        low = min(w.values())
                        off = [c for c in offer if not abs(times[c] - w[c] / low) < 1 + 1e-9 or times[c] < 1 or abs(w[c] - low) < 1e-9 and times[c] > 1]
                        if off:
                            ctx.violation(key, loc, 'after %s, %s enters the draw %d times, though its probability is %.3g times that of the least likely room' % (ci.name, off[0].name, times[off[0]], float(w[off[0]] / low)))
                            continue
                ctx.ok(key)


def transition(R, r):
    d = R.I.freeze(R.I.call(R.I.getattr_(r, 'get_transition_probs', R.st, None), [], {}, R.st, None), R.st)
    if d.op != 'dic' or not all(p[0] == 'i' and iskt(p[1][0], 'str') and isnum(p[1][1]) for p in d.args[0]):
        return None
    return {kv(p[1][0]): Fraction(kv(p[1][1])) for p in d.args[0]}


def tables(ctx, R):
    """every table of transition probabilities: what it says about a room agrees with what it says about pairs"""
    I = R.I
    m = I.p.modules.get('redeclipse.prefabs.distributions')
    if m is None:
        ctx.undecided('tables', '-', 'no module of distributions')
        return
    ns = I.load_state.obj(Ref(m.oid))
    for name, c in sorted(ns.fields.items()):
        if c.op != 'cls' or c.args[0].module is not m:
            continue
        ci = c.args[0]
        R.st = st = I.state()
        d = I.call(c, [], {}, st, None)
        tab = I.freeze(I.getattr_(d, 'transition_probabilities', st, None), st)
        mir = I.getattr_(d, 'mirror', st, None)
        if tab.op != 'dic' or not all(p[0] == 'i' and p[1][0].op == 'tup' and isnum(p[1][1]) for p in tab.args[0]) or mir not in (TRUE, FALSE):
            ctx.undecided('table ' + name, where(ci), 'the table is not constant')
            continue
        rows = {tuple(kv(x) for x in p[1][0].args): Fraction(kv(p[1][1])) for p in tab.args[0]}
        bad_ = [k for k, v in rows.items() if v <= 0]
        ctx.require(not bad_, 'table %s: positive' % name, where(ci), '%s: the probability of %s after %s is not positive' % ((name,) + (bad_[0][::-1] if bad_ else ('', ''))))
        kinds = sorted({x for k in rows for x in k})
        for k in kinds:
            key = 'table %s: %s' % (name, k)
            want = {b: v for (a, b), v in rows.items() if a == k}
            if mir is TRUE:
                for (a, b), v in rows.items():
                    if b == k:
                        want.setdefault(a, v)
            f = I.getattr_(d, 'for_class', st, None)
            loc = f.args[1].args[0].loc
            r = I.freeze(I.call(f, [st.alloc(Inst(None, {'room_type': K(k)}, where='room'))], {}, st, None), st)
            if st.dead:
                ctx.violation(key, loc, '%s: the probabilities after a %s cannot be listed: %s' % (name, k, kits.dead(st)))
                break
            if r.op != 'dic' or not all(p[0] == 'i' and isnum(p[1][1]) for p in r.args[0]):
                ctx.undecided(key, loc, show(r)[:100])
                continue
            got = {kv(p[1][0]): Fraction(kv(p[1][1])) for p in r.args[0]}
            off = [x for x in sorted(set(got) | set(want)) if got.get(x) != want.get(x)]
            ctx.require(not off, key, loc, '%s: %s after %s has the probability %s instead of %s' % (name, off[0] if off else '', k, got.get(off[0]) if off else '', want.get(off[0]) if off else ''))
            for b in kinds:
                st2 = I.state()
                d2 = I.call(c, [], {}, st2, None)
                g = I.getattr_(d2, 'tp', st2, None)
                v = I.call(g, [K(k), K(b)], {}, st2, None)
                key2 = key + ' then ' + b
                if b not in want:
                    ctx.require(st2.dead is not None, key2, g.args[1].args[0].loc, '%s: an unknown pair (%s, %s) has a probability' % (name, k, b))
                else:
                    ctx.require(st2.dead is None and isnum(v) and Fraction(kv(v)) == want[b], key2, g.args[1].args[0].loc, '%s: the probability of %s after %s is %s instead of %s' % (name, b, k, show(v) if not st2.dead else kits.dead(st2), want[b]))
