"""Runs of the generator that must not differ: the same seed, options and map in different surroundings."""
import hashlib
import os
import random as _random
from .common import *
from .. import evalt
from .. import state as _state
from ..out import GiveUp
from .rooms import vox_model, READER
from ..par import parallel

GEN = 'redeclipse.cli.magica_rooms:main'
LOC = 'redeclipse/cli/magica_rooms.py'
UPM = 'redeclipse.upm:UnusedPositionManager'


class World:
    """one set of surroundings: clock, process, addresses, orders that Python leaves open, state of the random numbers at the start"""

    def __init__(self, name, n):
        self.name, self.n = name, n
        self.ticks = 0

    def tick(self):
        self.ticks += 1
        return 1000000.25 + 7919.5 * self.n + self.ticks * (0.125 + 0.03 * self.n)


class Repeat:
    def __init__(self, ctx):
        self.ctx = ctx
        self.env = World('first', 0)
        self.streams = {}
        self.asked = set()
        self.vox = {}
        self.sources = {}
        ext = {}
        for n in RANDOM:
            ext['random.' + n] = self.dice(None, n)
        ext.update({'random.Random': self.generator, 'random.SystemRandom': self.system, 'id': self.ident, 'hash': self.hash_of})
        for n in ('time', 'monotonic', 'perf_counter', 'process_time', 'clock'):
            ext['time.' + n] = self.scalar('the clock', lambda: self.env.tick())
            ext['time.%s_ns' % n] = self.scalar('the clock', lambda: int(self.env.tick() * 10 ** 9))
        for n, f in (('getpid', lambda: 100 + self.env.n), ('getppid', lambda: 50 + self.env.n), ('getcwd', lambda: '/home/user%d' % self.env.n), ('urandom', None), ('getenv', lambda: 'value %d' % self.env.n),
                     ('getlogin', lambda: 'user%d' % self.env.n), ('cpu_count', lambda: 4 + self.env.n), ('environ.get', lambda: 'value %d' % self.env.n), ('path.getmtime', lambda: self.env.tick())):
            ext['os.' + n] = self.scalar('the process', f) if f else self.bytes_of
        for n in ('datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.datetime.today', 'datetime.date.today', 'datetime.now', 'time.localtime', 'time.gmtime'):
            ext[n] = self.moment
        for n in ('uuid.uuid1', 'uuid.uuid4'):
            ext[n] = self.uuid
        for n, f in (('secrets.randbelow', lambda a: _random.Random(self.env.n).randrange(a)), ('secrets.randbits', lambda a: _random.Random(self.env.n).getrandbits(a))):
            ext[n] = self.secret(f)
        ext['secrets.token_hex'] = self.scalar('the system', lambda: '%032x' % (12345 + self.env.n))
        ext['secrets.choice'] = self.dice('system', 'choice')
        for n in ('socket.gethostname', 'platform.node', 'getpass.getuser', 'tempfile.gettempdir', 'tempfile.mkdtemp'):
            ext[n] = self.scalar('the computer', lambda: 'name%d' % self.env.n)
        for n in ('threading.get_ident', '_thread.get_ident'):
            ext[n] = self.scalar('the process', lambda: 4711 * (1 + self.env.n))
        ext['os.listdir'] = self.listing
        ext['glob.glob'] = self.listing
        for n in ('pnoise1', 'pnoise2', 'pnoise3', 'snoise2', 'snoise3', 'snoise4'):
            ext['noise.' + n] = self.noise
        from .textures import Luck
        for n in ('hsv_to_rgb', 'rgb_to_hsv'):
            ext['colorsys.' + n] = Luck.hsv(n)
        intr = {'redeclipse.cli:parse': self.parse, READER + '.from_file': self.model}
        self.I = I = engine(ctx, {'ext': ext, 'intrinsics': intr, 'text': self.text, 'max_steps': 10 ** 9, 'unroll': 10 ** 5, 'unroll_true': 10 ** 4},
                            ('redeclipse', 'redeclipse.prefabs', 'redeclipse.upm', 'redeclipse.voxel', 'redeclipse.vector.orientations', 'redeclipse.cli.magica_rooms'))
        for m in sorted(I.p.modules):
            if m.startswith('redeclipse.prefabs'):
                I.load(m)

    # ------------------------------------------------------------ surroundings
    def used(self, what, I, node):
        self.sources.setdefault(I.loc(node), what)

    def scalar(self, what, f):
        def h(I, a, kw, st, node):
            self.used(what, I, node)
            return K(f())
        return h

    def bytes_of(self, I, a, kw, st, node):
        self.used('the system', I, node)
        n = int(kv(a[0])) if a and isnum(a[0]) else 8
        return K(bytes((37 * i + 101 * self.env.n + 11) % 256 for i in range(n)))

    def secret(self, f):
        def h(I, a, kw, st, node):
            if not a or not isnum(a[0]):
                return None
            self.used('the system', I, node)
            return K(f(int(kv(a[0]))))
        return h

    def moment(self, I, a, kw, st, node):
        self.used('the clock', I, node)
        n = self.env.n
        d = {'year': 2020 + n, 'month': 3 + n, 'day': 5 + n, 'hour': 7 + n, 'minute': 11 + n, 'second': 13 + n, 'microsecond': 170017 + 90001 * n}
        d.update({'tm_' + k: v for k, v in (('year', 2020 + n), ('mon', 3 + n), ('mday', 5 + n), ('hour', 7 + n), ('min', 11 + n), ('sec', 13 + n), ('yday', 64 + n), ('wday', n))})
        flds = {k: K(v) for k, v in d.items()}
        for k, v in (('timestamp', self.env.tick()), ('toordinal', 737000 + n), ('weekday', n), ('isoformat', '202%d' % n), ('strftime', 'at %d' % n), ('__str__', 'at %d' % n)):
            flds[k] = mk('ext', 'moment %r' % (v,))
            self.I.cfg['ext'].setdefault('moment %r' % (v,), lambda I, a, kw, st, node, v=v: K(v))
        return st.alloc(Inst(None, flds, where='moment'))

    def uuid(self, I, a, kw, st, node):
        self.used('the system', I, node)
        v = 0x1234567890abcdef * (3 + self.env.n)
        return st.alloc(Inst(None, {'int': K(v), 'hex': K('%032x' % v), 'time': K(v % 10 ** 9), 'node': K(v % 65536)}, where='uuid'))

    def ident(self, I, a, kw, st, node):
        if len(a) != 1:
            return None
        self.used('addresses of objects', I, node)
        t = a[0]
        k = t.args[0] if t.op == 'ref' else show(t)
        return K(140 * 10 ** 12 + 16 * self.digest(k))

    def text(self, I, t, st, node):
        """the text of a value without one of its own: it has the address in it"""
        o = st.obj(t)
        if isinstance(o, Inst) and o.cls is not None:
            self.used('addresses of objects', I, node)
            return K('<%s.%s object at 0x%x>' % (o.cls.module.name, o.cls.name, 140 * 10 ** 12 + 16 * self.digest(t.args[0])))
        if t.op == 'fn' or t.op == 'bound':
            self.used('addresses of objects', I, node)
            return K('<function at 0x%x>' % self.digest(show(t)))
        if isinstance(o, Seq) and all(p[0] == 'i' for p in o.pieces) and o.kind in ('list', 'set'):
            l = [p[1] for p in o.pieces]
            form = {'list': '[%s]', 'set': '{%s}'}[o.kind] if l else {'list': '[%s]', 'set': 'set()%s'}[o.kind]
        elif t.op == 'tup':
            l, form = list(t.args), '(%s,)' if len(t.args) == 1 else '(%s)'
        elif isinstance(o, Dic) and all(p[0] == 'i' for p in o.pieces):
            l, form = [x for p in o.pieces for x in p[1]], 'dict %s'
        else:
            return None
        l = [I.call(mk('ext', 'repr'), [x], {}, st, node) for x in l]
        return K(form % ', '.join(kv(x) for x in l)) if all(iskt(x, 'str') for x in l) else None

    def digest(self, x):
        return int(hashlib.md5(('%d %s' % (self.env.n, x)).encode()).hexdigest()[:10], 16)

    def hash_of(self, I, a, kw, st, node):
        if len(a) != 1 or not self.open_order(a[0], st):
            return None
        self.used('hashes of objects or text', I, node)
        return K(self.digest(show(I.freeze(a[0], st)) if a[0].op != 'ref' else a[0].args[0]) - (1 << 39))

    def listing(self, I, a, kw, st, node):
        if a and iskt(a[0], 'str'):
            d = kv(a[0])
            d = d if os.path.isabs(d) else os.path.join(self.ctx.repo, d)
            if os.path.isdir(d):
                self.used('the order of a directory', I, node)
                l = sorted(os.listdir(d), reverse=self.env.n % 2 == 1)
                return st.alloc(Seq('list', tuple(('i', K(x)) for x in l)))
        return None

    def open_order(self, v, st):
        """the hash of a value differs from process to process"""
        if isk(v):
            return isinstance(kv(v), (str, bytes))
        if v.op in ('cls', 'fn', 'ext', 'mod', 'bound', 'bm', 'enumm'):
            return True
        if v.op == 'tup':
            return any(self.open_order(x, st) for x in v.args)
        o = st.obj(v) if v.op == 'ref' else None
        if isinstance(o, Inst):
            if o.cls is None:
                return True
            return self.I.class_attr(o.cls, '__hash__', st)[0] is None and self.I.class_attr(o.cls, '__eq__', st)[0] is None
        return False

    def reorder(self, pieces):
        """the order in which a set of things is walked through, other than in the first surroundings"""
        if self.env.n % 2 == 0 or not all(p[0] == 'i' for p in pieces):
            return pieces
        loose = [p for p in pieces if self.open_order(p[1], self.st)]
        if not loose:
            return pieces
        rank = {id(p): i for i, p in enumerate(pieces)}
        return tuple(sorted(pieces, key=lambda p: (show(p[1]) if p[1].op != 'ref' else '%09d' % p[1].args[0], rank[id(p)]), reverse=True))

    # ------------------------------------------------------------ random numbers
    def stream(self, which):
        key = which
        if key not in self.streams:
            self.streams[key] = _random.Random('state %d of %s' % (self.env.n, which))
        return self.streams[key]

    def dice(self, which, n):
        def h(I, a, kw, st, node):
            if which == 'system':
                self.used('the system', I, node)
            r = self.stream(which)
            num = [kv(x) for x in a] if all(isnum(x) for x in a) else None
            if n == 'seed':
                if not a or a[0] is NONE:
                    self.streams[which] = _random.Random('state %d of %s' % (self.env.n, which))
                elif isk(a[0]):
                    self.streams[which] = _random.Random('seed %r' % (kv(a[0]),))
                else:
                    raise evalt.Unknown('the random numbers are seeded with %s' % show(a[0])[:80])
                return NONE
            if n in ('choice', 'sample', 'shuffle', 'choices'):
                a = list(a) + [kw[k] for k in ('population', 'weights') if k in kw]
                o = st.obj(a[0])
                if isinstance(o, Seq) and o.kind != 'set' and all(p[0] == 'i' for p in o.pieces):
                    l = [p[1] for p in o.pieces]
                elif a[0].op == 'tup':
                    l = list(a[0].args)
                elif a[0].op == 'range' and all(isnum(x) for x in a[0].args):
                    l = [K(x) for x in range(*[int(kv(x)) for x in a[0].args])]
                elif iskt(a[0], 'str'):
                    l = [K(c) for c in kv(a[0])]
                else:
                    raise evalt.Unknown('random.%s of %s' % (n, show(I.freeze(a[0], st))[:80]))
                if n == 'choice':
                    return r.choice(l) if l else I.fail(st, 'IndexError', 'choice from an empty list', node)
                if n == 'shuffle':
                    r.shuffle(l)
                    I.B.mutate(I, a[0], o.with_(tuple(('i', x) for x in l)), st, 'shuffle', (), node)
                    return NONE
                k = kw.get('k', a[1] if n == 'sample' and len(a) > 1 else K(1))
                if not isnum(k):
                    raise evalt.Unknown('random.%s of %s' % (n, show(k)[:80]))
                if n == 'choices':
                    return st.alloc(Seq('list', tuple(('i', r.choice(l)) for _ in range(int(kv(k))))))
                if not 0 <= kv(k) <= len(l):
                    return I.fail(st, 'ValueError', 'sample larger than population', node)
                return st.alloc(Seq('list', tuple(('i', x) for x in r.sample(l, int(kv(k))))))
            if n == 'getstate':
                return mk('k', 'rngstate', r.getstate())
            if num is None or kw:
                raise evalt.Unknown('random.%s of %s' % (n, ', '.join(show(x)[:60] for x in a)))
            num = [int(x) if n in ('randint', 'randrange', 'getrandbits') else float(x) for x in num]
            try:
                v = getattr(r, n)(*num)
            except (ValueError, TypeError) as e:
                return I.fail(st, type(e).__name__, str(e), node)
            return K(v)
        return h

    def made(self, which, st):
        flds = {}
        for n in RANDOM:
            k = 'rng %s %s' % (which, n)
            flds[n] = mk('ext', k)
            self.I.cfg['ext'].setdefault(k, self.dice(which, n))
        return st.alloc(Inst(None, flds, where='generator'))

    def generator(self, I, a, kw, st, node):
        self.count = getattr(self, 'count', 0) + 1
        which = 'own %d' % self.count
        v = self.made(which, st)
        self.dice(which, 'seed')(I, a, kw, st, node)
        return v

    def system(self, I, a, kw, st, node):
        return self.made('system', st)

    def noise(self, I, a, kw, st, node):
        if not all(isnum(x) for x in list(a) + list(kw.values())):
            return None
        x = sum(float(kv(v)) * w for v, w in zip(a, (37.1, 91.7, 53.3, 11.9))) + sum(float(kv(v)) for v in kw.values())
        return K((x * 0.618) % 2 - 1)

    # ------------------------------------------------------------ stand-ins for files
    def parse(self, I, a, kw, st, node):
        return st.alloc(Inst(None, {'ents': st.alloc(Seq('list', ())), 'cfg_extra': st.alloc(Seq('list', ()))}, where='map'))

    def model(self, I, a, kw, st, node):
        if not a or not iskt(a[-1], 'str'):
            return None
        name = os.path.basename(kv(a[-1]))
        if name not in self.vox:
            self.vox[name] = None
            for d, _, fs in sorted(os.walk(os.path.join(self.ctx.repo, 'redeclipse'))):
                if name in fs:
                    cells = {}
                    for x, y, z, c in vox_model(os.path.join(d, name))['voxels']:
                        cells.setdefault((x // 8, y // 8, z // 8), []).append((x, y, z, c % 3))
                    self.vox[name] = [v for q in sorted(cells) for v in dict.fromkeys((min(cells[q]), max(cells[q])))]
                    break
        rows = self.vox[name]
        if rows is None:
            return None
        vs = [('i', st.alloc(Inst(None, {'x': K(x), 'y': K(y), 'z': K(z), 'c': K(c)}, where='voxel'))) for x, y, z, c in rows]
        cols = [('i', st.alloc(Inst(None, {k: K(c) for k, c in zip('rgba', col)}, where='colour'))) for col in ((0, 0, 0, 255), (255, 0, 0, 255), (0, 51, 0, 255))]
        return st.alloc(Inst(None, {'model_voxels': st.alloc(Inst(None, {'voxels': st.alloc(Seq('list', tuple(vs))), 'num_voxels': K(len(vs))}, where='voxels')),
                                    'palette': st.alloc(Inst(None, {'colours': st.alloc(Seq('list', tuple(cols)))}, where='palette'))}, where='model'))

    # ------------------------------------------------------------ runs
    def begin(self, n):
        self.env = World('', n)
        self.streams = {}
        self.st = self.I.state()
        _state.ORDER[0] = self.reorder if n % 2 else None
        return self.st

    def run(self, st, seed, rooms, mirror, ctf, flavor):
        I = self.I
        h = st.alloc(Inst(None, {'name': K('/maps/in.mpz')}, where='file'))
        kw = {'mpz_in': h, 'seed': K(seed), 'rooms': K(rooms), 'mirror': K(mirror), 'ctf': TRUE if ctf else FALSE, 'debug': FALSE,
              'flavor': NONE if flavor is None else st.alloc(Seq('list', tuple(('i', K(x)) for x in flavor)))}
        f = I.lookup(GEN)
        r = I.call(f, [], kw, st, None)
        if st.dead:
            return None
        if r.op != 'tup' or len(r.args) != 3:
            raise evalt.Unknown('the run returns %s' % show(r)[:80])
        return self.picture(st, *r.args)

    def vec(self, v, st):
        t = tuple(self.I.getattr_(v, k, st, None) for k in 'xyz')
        if not all(isnum(x) for x in t):
            raise evalt.Unknown('a position is %s' % show(mk('tup', *t))[:80])
        return tuple(kv(x) for x in t)

    def room(self, r, st):
        I = self.I
        f = I.getattr_(r, '_randflags', st, None, quiet=True)
        f = () if f is None else tuple(show(x) for x in flat(I.freeze(f, st)))
        o = st.obj(r)
        if o is None or getattr(o, 'cls', None) is None:
            raise evalt.Unknown('a room is %s' % show(r)[:80])
        return (o.cls.qual, self.vec(I.getattr_(r, 'pos', st, None), st), self.vec(I.getattr_(r, 'orientation', st, None), st), f)

    def points(self, v, st):
        I = self.I
        w = st.obj(I.getattr_(v, 'world', st, None))
        if not isinstance(w, Dic) or not all(p[0] == 'i' for p in w.pieces):
            raise evalt.Unknown('the voxels are not known')
        out = {}
        for p in w.pieces:
            o = st.obj(p[1][1])
            if isinstance(o, Inst) and o.cls is not None:
                out[I.freeze(p[1][0], st)] = {k: I.freeze(x, st) for k, x in o.fields.items()}
            else:
                out[I.freeze(p[1][0], st)] = {'': I.freeze(p[1][1], st)}
        return out

    def picture(self, st, v, m, u):
        I = self.I
        out = {}
        rs = pieces(st, I.getattr_(u, 'rooms', st, None), 'rooms')
        out['rooms'] = [self.room(r, st) for r in rs]
        out['links'] = [show(I.freeze(l, st)) for l in pieces(st, I.getattr_(u, 'links', st, None), 'links')]
        out['voxels'] = self.points(v, st)
        out['entities'] = [I.freeze(e, st) for e in pieces(st, I.getattr_(m, 'ents', st, None), 'entities')]
        out['config lines'] = [show(I.freeze(e, st)) for e in pieces(st, I.getattr_(m, 'cfg_extra', st, None), 'config lines')]
        return out


RANDOM = ('random', 'uniform', 'randint', 'randrange', 'choice', 'choices', 'sample', 'shuffle', 'gauss', 'normalvariate', 'triangular', 'betavariate', 'expovariate', 'getrandbits', 'seed', 'getstate')


def flat(t):
    if t.op == 'tup':
        return t.args
    if t.op == 'seq':
        return [p[1] for p in t.args[1] if p[0] == 'i']
    return [t]


def pieces(st, v, what):
    o = st.obj(v)
    if not isinstance(o, Seq) or not all(p[0] == 'i' for p in o.pieces):
        raise evalt.Unknown('the %s are not known' % what)
    return [p[1] for p in o.pieces]


def known(t, seen=None):
    """a value without unknowns"""
    return not [a for a in evalt.atoms(t)]


def numbers(t):
    """the whole numbers of a list or a number"""
    return tuple(kv(x) for x in flat(t)) if all(isnum(x) for x in flat(t)) else None


def running(a):
    """the fields that only number the voxels: another number in each"""
    seen = {}
    for f in a.values():
        for k, x in f.items():
            seen.setdefault(k, []).append(x)
    return {k for k, l in seen.items() if all(isnum(x) for x in l) and len({kv(x) for x in l}) == len(l) > 2}


def renamed(x, y, ids):
    """alike up to a renaming of texture numbers that is the same everywhere"""
    p, q = numbers(x), numbers(y)
    return p is not None and q is not None and len(p) == len(q) and all(ids[0].setdefault(i, j) == j and ids[1].setdefault(j, i) == i for i, j in zip(p, q))


def difference(a, b, rename):
    """what differs first between two pictures"""
    for k in ('rooms', 'links', 'config lines'):
        if k not in a:
            continue
        for i, (x, y) in enumerate(zip(a[k], b[k])):
            if x != y:
                return '%s %d is %s in one run and %s in the other' % (k[:-1], i + 1, nice(x), nice(y))
        if len(a[k]) != len(b[k]):
            return 'there are %d %s in one run and %d in the other' % (len(a[k]), k, len(b[k]))
    va, vb = a['voxels'], b['voxels']
    if set(va) != set(vb):
        q = sorted(set(va) ^ set(vb), key=show)[0]
        return 'the voxel at %s is set in one run only' % show(q)
    if not rename and list(va) != list(vb):
        return 'the voxels are stored in another order'
    ids = ({}, {})
    skip = running(va) & running(vb) if rename else ()
    for q in va:
        x, y = va[q], vb[q]
        for k in sorted(set(x) | set(y)):
            if k in skip or k in x and k in y and (x[k] is y[k] or rename and k == 'texture' and renamed(x[k], y[k], ids)):
                continue
            return 'the voxel at %s has %s %s in one run and %s in the other' % (show(q), k, show(x[k])[:100] if k in x else 'missing', show(y[k])[:100] if k in y else 'missing')
    for i, (x, y) in enumerate(zip(a['entities'], b['entities'])):
        if x is not y:
            return 'entity %d is %s in one run and %s in the other' % (i + 1, show(x)[:150], show(y)[:150])
    if len(a['entities']) != len(b['entities']):
        return 'there are %d entities in one run and %d in the other' % (len(a['entities']), len(b['entities']))
    return None


def nice(x):
    return x if isinstance(x, str) else '%s at %s facing %s, flags %s' % (x[0].split(':')[-1], x[1], x[2], list(x[3]))


# ---------------------------------------------------------------- the check
RUNS = ((1, 2, 2, False, None), (7, 2, 1, True, ('maliwan', 'space_station')))
MORE = ((1, 8, 2, False, None), (42, 4, 4, False, ('crushed_blacks',)), (0, 6, 1, True, None))


def runs(ctx):
    ctx.rule('the whole generator is evaluated for fixed seeds, options and draws in surroundings that differ in everything that seed and options do not determine; the results are compared part by part')
    ctx.assumption('noise and colorsys are functions of their arguments; random is determined by its seed')
    try:
        return guarded(ctx, 'runs', lambda: everything(ctx))
    finally:
        _state.ORDER[0] = None


def everything(ctx):
    R = Repeat(ctx)
    parts = []
    for run in RUNS + (MORE if ctx.tier != 'quick' else ()):
        for other in (True, False):
            parts.append((title(run) + (', other surroundings' if other else ', after another run'), lambda c, run=run, other=other: one_run(c, R, run, other)))
    for c in classes(R):
        parts.append(('room ' + c.args[0].name, lambda x, c=c: room_alone(x, R, c)))
    R.I.quiet = True
    parallel(ctx, parts, limit=250 if ctx.tier == 'quick' else 900)
    return R.I


def title(run):
    return 'seed %d, rooms %d, mirror %d, ctf %s, flavours %s' % run


def one_run(ctx, R, run, other):
    key = title(run)
    try:
        st = R.begin(0)
        a = R.run(st, *run)
        if a is None:
            return ctx.undecided(key, LOC, 'the run fails')
        R.sources.clear()
        if other:
            st = R.begin(1)
            b = R.run(st, *run)
            judge(ctx, R, key + ', other surroundings', a, b, False)
            if ctx.tier != 'quick':
                b = R.run(st, *run) if b is not None else None
                judge(ctx, R, key + ', a second time in other surroundings', a, b, True)
        else:
            st = R.begin(0)
            c = R.run(st, 99 + run[0], 1, 1 if run[2] > 1 else 2, not run[3], ('crushed_blacks',) if run[4] else ('maliwan',))
            if c is not None:
                c = R.run(st, *run)
            judge(ctx, R, key + ', after another run', a, c, True)
    except (evalt.Unknown, GiveUp) as e:
        ctx.undecided(key, LOC, str(e)[:200])


def judge(ctx, R, key, a, b, rename, loc=LOC):
    ctx.stat('runs_compared')
    if b is None:
        return ctx.violation(key, loc, 'it fails, though it did not in other surroundings [%s]' % key)
    d = difference(a, b, rename)
    if d is None:
        ctx.ok(key, 1)
        ctx.stat('values_compared', len(a['voxels']) + len(a['entities']) + len(a.get('rooms', ())))
        return
    where, what = sorted(R.sources.items())[0] if R.sources and not rename else (loc, None)
    ctx.violation(key, where, '%s%s [%s]' % (d, ' (the run asks for %s here)' % what if what else '', key))


def classes(R):
    I = R.I
    base = I.lookup('redeclipse.prefabs:Room').args[0]
    seen = {}
    for m in sorted(I.p.modules):
        if m == 'redeclipse.prefabs' or m.startswith('redeclipse.prefabs.'):
            for v in I.load_state.obj(Ref(I.p.modules[m].oid)).fields.values():
                if v.op == 'cls' and base in v.args[0].mro and v.args[0].module.name == m:
                    seen[v.args[0].qual] = v
    return [seen[k] for k in sorted(seen)]


def alone(R, st, c, seed):
    """two rooms of one class, the options drawn as for a room of another class and of the same class before it, built and drawn with the same seed"""
    I = R.I
    R.streams[None] = _random.Random('room %d' % seed)
    v = I.call(I.lookup('redeclipse.voxel:VoxelWorld'), [], {'size': K(256)}, st, None)
    m = R.parse(I, [], {}, st, None)
    rs = []
    prev = None
    first = I.call(I.lookup('redeclipse.prefabs:Room'), [], {'pos': I.call(I.lookup('redeclipse.vector:CoarseVector'), [K(2), K(6), K(3)], {}, st, None)}, st, None)
    for k, o in enumerate(('EAST', 'NORTH')):
        pos = I.call(I.lookup('redeclipse.vector:CoarseVector'), [K(5 + 3 * k), K(6), K(3)], {}, st, None)
        kw = {'pos': pos, 'orientation': I.lookup('redeclipse.vector.orientations:' + o)}
        opts = st.obj(I.call(I.getattr_(c, 'randOpts', st, None), [first if prev is None else prev], {}, st, None))
        if st.dead:
            return None
        if not isinstance(opts, Dic) or not all(p[0] == 'i' and iskt(p[1][0], 'str') for p in opts.pieces):
            raise evalt.Unknown('the options are not known')
        kw.update({kv(p[1][0]): p[1][1] for p in opts.pieces})
        prev = I.call(c, [], kw, st, None)
        if st.dead:
            return None
        I.call(I.getattr_(prev, 'render', st, None), [v, m], {}, st, None)
        if st.dead:
            return None
        rs.append(R.room(prev, st))
    return {'rooms': rs, 'voxels': R.points(v, st), 'entities': [I.freeze(e, st) for e in pieces(st, I.getattr_(m, 'ents', st, None), 'entities')]}


def room_alone(ctx, R, c):
    ci = c.args[0]
    key = 'room ' + ci.name
    where = '%s:%d' % (ci.module.rel, ci.node.lineno)
    try:
        seed = 3 + len(ci.name)
        st = R.begin(0)
        f = R.I.class_attr(ci, 'vox_file', st)[0]
        if f is NONE:
            return          # a base class that cannot be drawn
        a = alone(R, st, c, seed)
        if a is None:
            return          # a base class that cannot be drawn, or a room that R02 complains about
        R.sources.clear()
        st = R.begin(1)
        b = alone(R, st, c, seed)
        judge(ctx, R, key + ', other surroundings', a, b, False, where)
        if b is not None:
            b = alone(R, st, c, seed + 1)
            b = alone(R, st, c, seed) if b is not None else None
            judge(ctx, R, key + ', again', a, b, True, where)
        ctx.stat('classes_compared')
    except (evalt.Unknown, GiveUp) as e:
        ctx.undecided(key, where, str(e)[:200])
