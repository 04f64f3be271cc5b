"""The command line tools: what they read and write, and how the options on the command line reach them."""
import random as dice
from .common import *
from .. import evalt
from ..out import GiveUp
from .entities import show_dead
from .output import items, Gen, UPM

CLI = 'redeclipse.cli:'


class Usage(Exception):
    pass


class Line:
    """stand-in for argparse: the arguments that a tool declares, applied to a command line"""

    def __init__(self, argv):
        self.argv = [mk('k', x) if False else x for x in argv]
        self.specs, self.handles, self.defaults = [], {}, {}

    def ext(self):
        e = {'argparse.ArgumentParser': self.parser, 'argparse.FileType': lambda I, a, kw, st, node: mk('ext', 'line file', K(kv(a[0]) if a else kv(kw.get('mode', K('r'))))),
             'line add': self.add, 'line group': lambda I, a, kw, st, node: self.obj, 'line parse': self.parse, 'line error': self.error, 'line none': lambda I, a, kw, st, node: NONE,
             'line defaults': self.set_defaults, 'line text': lambda I, a, kw, st, node: mk('filetext', ty='str'), 'line write': lambda I, a, kw, st, node: mk('nwritten', ty='int')}
        return e

    def parser(self, I, a, kw, st, node):
        f = {'add_argument': 'add', 'parse_args': 'parse', 'add_argument_group': 'group', 'add_mutually_exclusive_group': 'group', 'error': 'error', 'set_defaults': 'defaults', 'print_help': 'none', 'print_usage': 'none'}
        self.obj = st.alloc(Inst(None, {k: mk('ext', 'line ' + v) for k, v in f.items()}, where='argument parser'))
        return self.obj

    def set_defaults(self, I, a, kw, st, node):
        self.defaults.update(kw)
        return NONE

    def error(self, I, a, kw, st, node):
        return I.fail(st, 'SystemExit', 'usage', node)

    def add(self, I, a, kw, st, node):
        self.specs.append(([kv(x) for x in a], dict(kw)))
        return NONE

    def typed(self, I, st, node, kw, text):
        t = kw.get('type')
        if t is None or t is NONE:
            v = K(text)
        elif t.op == 'ext' and t.args[0] == 'line file':
            h = st.alloc(Inst(None, {'name': K(text), 'mode': t.args[1], 'read': mk('ext', 'line text'), 'write': mk('ext', 'line write'), 'close': mk('ext', 'line none'), 'flush': mk('ext', 'line none'),
                                     '__enter__': mk('ext', 'line none'), '__exit__': mk('ext', 'line none')}, where='file'))
            self.handles[h] = (text, kv(t.args[1]))
            return h
        elif show(t).split()[-1].strip("'()") in ('int', 'float') or t.op == 'ext' and t.args[0] in ('int', 'float'):
            n = 'int' if 'int' in show(t) else 'float'
            try:
                v = K((int if n == 'int' else float)(text))
            except ValueError:
                raise Usage('%s is no %s' % (text, n))
        else:
            v = I.call(t, [K(text)], {}, st, node)
        c = kw.get('choices')
        if c is not None and c is not NONE:
            l = items(st, c)
            if l is None:
                raise AnalysisError('the choices %s are not known' % show(c)[:80])
            if v not in l:
                raise Usage('%s is no choice' % text)
        return v

    def parse(self, I, a, kw, st, node):
        try:
            return self.parse_(I, st, node)
        except Usage as e:
            return I.fail(st, 'SystemExit', str(e), node)

    def parse_(self, I, st, node):
        out, opts, pos = {}, {}, []
        for names, kw in self.specs:
            long = next((n for n in names if n.startswith('--')), names[0])
            dest = kv(kw['dest']) if 'dest' in kw else long.lstrip('-').replace('-', '_')
            act = kv(kw.get('action', K('store')))
            if names[0].startswith('-'):
                for n in names:
                    opts[n] = (dest, act, kw)
            else:
                pos.append((dest, act, kw))
            d = kw.get('default', self.defaults.get(dest, TRUE if act == 'store_false' else FALSE if act == 'store_true' else NONE))
            if iskt(d, 'str') and act == 'store':
                d = self.typed(I, st, node, {'type': kw.get('type')}, kv(d))
            out[dest] = d
        argv, i, given = self.argv, 0, set()
        while i < len(argv):
            x = argv[i]
            i += 1
            if x.startswith('--'):
                eq = None
                if '=' in x:
                    x, eq = x.split('=', 1)
                if x not in opts:
                    raise Usage('no option %s' % x)
                dest, act, kw = opts[x]
                given.add(dest)
                if act in ('store_true', 'store_false', 'store_const'):
                    out[dest] = TRUE if act == 'store_true' else FALSE if act == 'store_false' else kw.get('const', NONE)
                    continue
                if act not in ('store', 'append'):
                    raise AnalysisError('argument action %s' % act)
                n = kv(kw['nargs']) if 'nargs' in kw and kw['nargs'] is not NONE else None
                vals = [eq] if eq is not None else []
                while eq is None and i < len(argv) and not argv[i].startswith('--') and (n in ('*', '+') or len(vals) < (n if isinstance(n, int) else 1)):
                    vals.append(argv[i])
                    i += 1
                if (n is None or n == '+') and not vals or isinstance(n, int) and len(vals) != n:
                    raise Usage('%s needs a value' % x)
                vs = [self.typed(I, st, node, kw, v) for v in vals]
                if n is None or n == '?':
                    v = vs[0] if vs else kw.get('const', NONE)
                else:
                    v = st.alloc(Seq('list', tuple(('i', v) for v in vs)))
                if act == 'append':
                    old = items(st, out[dest]) if out[dest] is not NONE else []
                    v = st.alloc(Seq('list', tuple(('i', y) for y in old + [v])))
                out[dest] = v
            else:
                if not pos:
                    raise Usage('%s is too much' % x)
                dest, act, kw = pos.pop(0)
                if kw.get('nargs') not in (None, NONE, K('?')):
                    raise AnalysisError('positional arguments with nargs')
                out[dest] = self.typed(I, st, node, kw, x)
        if any(kw.get('nargs') != K('?') for _, _, kw in pos):
            raise Usage('something is missing')
        for dest, act, kw in opts.values():
            if kw.get('required') is TRUE and dest not in given:
                raise Usage('%s is missing' % dest)
        return st.alloc(Inst(None, out, where='arguments'))


# ---------------------------------------------------------------- tools that read and write a map
def noise(*xs):
    import math
    h = math.sin(sum(x * w for x, w in zip(xs, (12.9898, 78.233, 3.77)))) * 43758.5453
    return (-0.95, -0.4, 0.0, 0.205, 0.207, 0.213, 0.3, 0.97)[int((h - math.floor(h)) * 8)]


class Tool:
    def __init__(self, ctx, module, argv, size):
        self.log, self.module = [], module
        self.rnd = dice.Random(5)
        L = self.line = Line(argv)
        ext = L.ext()
        ext.update({'noise.pnoise2': self.noise, 'noise.pnoise3': self.noise, 'noise.snoise2': self.noise, 'tqdm.tqdm': lambda I, a, kw, st, node: a[0], 'tqdm.trange': None,
                    'random.randint': lambda I, a, kw, st, node: K(self.rnd.randint(kv(a[0]), kv(a[1]))), 'random.random': lambda I, a, kw, st, node: K(self.rnd.random()),
                    'random.seed': lambda I, a, kw, st, node: NONE, 'tool write': self.write, 'sys.stderr.write': lambda I, a, kw, st, node: NONE, 'print': lambda I, a, kw, st, node: NONE})
        ext = {k: v for k, v in ext.items() if v is not None}
        V = 'redeclipse.voxel:VoxelWorld'
        intr = {CLI + 'parse': self.parse, V + '.set_point': self.point, V + '.del_point': self.gone, V + '.to_octree': self.octree}
        self.I = engine(ctx, {'ext': ext, 'intrinsics': intr, 'max_steps': 20000000, 'unroll': 5000, 'unroll_true': 5000, 'ftypes': {}},
                        ('redeclipse', 'redeclipse.cli', 'redeclipse.voxel', 'redeclipse.entities', module))
        self.st = self.I.state()
        mod = mk('mod', module)
        for k, v in (('IJ_SIZE', size),):
            if self.I.getattr_(mod, k, self.st, None, quiet=True) is not None:
                self.I.setattr_(mod, k, K(v), self.st, None)
        self.log.clear()

    def noise(self, I, a, kw, st, node):
        xs = list(a) + [kw[k] for k in sorted(kw) if k == 'base']
        if not all(isnum(x) for x in xs):
            return None
        return K(noise(*[kv(x) for x in xs]))

    def parse(self, I, a, kw, st, node):
        self.log.append(('parse', (list(a) + list(kw.values()))[0]))
        self.old = [st.alloc(Inst(None, {}, where='old %d' % i)) for i in range(2)]
        self.ents = st.alloc(Seq('list', tuple(('i', x) for x in self.old)))
        self.world = st.alloc(Seq('list', ()))
        self.map = st.alloc(Inst(None, {'ents': self.ents, 'world': self.world, 'cfg_extra': st.alloc(Seq('list', ())), 'write': mk('ext', 'tool write')}, where='map'))
        self.fields = dict(st.obj(self.map).fields)
        return self.map

    def point(self, I, a, kw, st, node):
        args = list(a) + [kw[k] for k in ('x', 'y', 'z', 'data')[len(a) - 1:]]
        if not all(isnum(x) for x in args[1:4]):
            raise GiveUp('a place that is not known: %s' % [show(x)[:40] for x in args[1:4]])
        self.log.append(('point', args[0], tuple(kv(x) for x in args[1:4]), args[4]))
        return NONE

    def gone(self, I, a, kw, st, node):
        self.log.append(('gone', a[0]))
        return NONE

    def octree(self, I, a, kw, st, node):
        t = mk('sym', 'octree %d' % len(self.log))
        self.log.append(('octree', a[0], t))
        return t

    def write(self, I, a, kw, st, node):
        o = st.obj(self.map)
        self.log.append(('write', (list(a) + list(kw.values()))[0], dict(o.fields), items(st, o.fields['ents'])))
        return NONE

    def run(self):
        I, st = self.I, self.st
        I.call(I.lookup(self.module + ':main'), [], {}, st, None)
        if st.dead:
            return 'main fails: %s' % show_dead(st)
        r = [x for x in self.log if x[0] == 'parse']
        if len(r) != 1 or r[0][1] is not K('in.mpz'):
            return 'the maps that are read are %s' % [show(x[1])[:40] for x in r]
        w = [x for x in self.log if x[0] == 'write']
        if len(w) != 1:
            return 'the map that was read is written %d times' % len(w)
        if w[0][1] is not K('out.mpz'):
            return 'the map is written to %s' % show(w[0][1])[:60]
        if self.log[-1] is not w[0]:
            return 'cubes are placed after the map was written'
        if w[0][3] is None:
            raise GiveUp('the entities are not known')
        if w[0][3][:2] != self.old:
            return 'the entities that the map had are gone or elsewhere'
        return None


def tool(ctx):
    ctx.rule('main of each tool is evaluated for a command line with stand-ins for argparse, the map that is read, noise and random numbers; the order of reading, placing cubes and writing, the map that is written and its new entities are compared')
    ctx.assumption('terrain is generated with scripted noise on 16 by 16 columns instead of 128 or 256')

    def go():
        for name, how in (('iso', iso), ('perlin', terrain), ('snow_forest', terrain)):
            guarded(ctx, name, one, ctx, name, how)
        guarded(ctx, 'rooms', rooms, ctx)
        guarded(ctx, 'options', options, ctx)
        return None
    guarded(ctx, 'tools', go)
    return Interp(Project(ctx.repo), {})


def one(ctx, name, how):
    loc = 'redeclipse/cli/%s.py' % name
    for argv in (['in.mpz', 'out.mpz'],):
        T = Tool(ctx, 'redeclipse.cli.' + name, argv, 16)
        try:
            bad = T.run()
            bad = bad or how(ctx, T, name)
        except (GiveUp, evalt.Unknown) as e:
            ctx.undecided(name, loc, str(e)[:200])
            continue
        ctx.require(bad is None, name, loc, '%s: %s' % (name, bad))


def iso(ctx, T, name):
    w = T.log[-1]
    if w[2] != T.fields:
        return 'the map is changed: %s' % ', '.join(k for k in w[2] if w[2][k] is not T.fields.get(k))
    if len(w[3]) != 2:
        return 'the entities are changed'
    if len(T.log) != 2:
        return 'something else is done'
    return None


def terrain(ctx, T, name):
    I, st = T.I, T.st
    w = T.log[-1]
    pts = [x for x in T.log if x[0] == 'point']
    trees = [x for x in T.log if x[0] == 'octree']
    if not pts:
        return 'no cube is placed'
    if len(trees) != 1 or w[2]['world'] is not trees[0][2]:
        return 'the octree that is written is not the one of the world'
    if any(x[0] in ('point', 'gone') for x in T.log[T.log.index(trees[0]):]):
        return 'cubes are placed after the octree was made'
    v = trees[0][1]
    if any(x[1] is not v for x in pts):
        return 'cubes are placed in another world than the one that is written'
    size = I.getattr_(v, 'size', st, None)
    if not isnum(size):
        raise GiveUp('the size of the world is not known')
    cube = I.lookup('redeclipse.objects:cube').args[0]
    for _, _, p, c in pts:
        if any(q != int(q) or not 0 <= q < kv(size) for q in p):
            return 'a cube is placed at %s in a world of size %d' % (p, kv(size))
        o = st.obj(c)
        if o is None or getattr(o, 'cls', None) is not cube:
            return 'what is placed at %s is no cube' % (p,)
    cols = {}
    for _, _, p, _ in pts:
        cols.setdefault((p[0], p[1]), set()).add(p[2])
    ctx.stat('cubes', len(pts))
    if sorted(cols) != [(i, j) for i in range(16) for j in range(16)]:
        return 'only %d of 256 columns have ground' % len(cols)
    new = w[3][2:]
    ctx.stat('entities', len(new))
    if name == 'perlin':
        return 'entities are added' if new else None
    kinds = set()
    for e in new:
        o = st.obj(e)
        if o is None or getattr(o, 'cls', None) is None:
            raise GiveUp('an entity that is not known')
        kinds.add(o.cls.name)
        p = [I.getattr_(I.getattr_(e, 'o', st, None), k, st, None) for k in 'xyz']
        if not all(isnum(q) for q in p):
            raise GiveUp('the place of an entity is not known')
        x, y, z = (kv(q) / 4 for q in p)
        if (x, y) not in cols:
            return 'a %s stands at %s, %s, where no ground is' % (o.cls.name, x, y)
        if 0 < x < 15 and 0 < y < 15:
            top = max(cols[x, y]) + 1
            if not (top - 1.25 <= z <= top if o.cls.name == 'MapModel' else z == top):
                return 'a %s stands at height %s, but the ground ends at %d' % (o.cls.name, z, top)
    if kinds != {'MapModel', 'PlayerSpawn'}:
        return 'the entities added are %s' % sorted(kinds)
    return None


# ---------------------------------------------------------------- rooms
class Rooms(Gen):
    def __init__(self, ctx):
        Gen.__init__(self, ctx)
        I = self.I
        self.mod = 'redeclipse.cli.rooms'
        I.intrinsics['redeclipse.magicavoxel.writer:to_magicavoxel'] = self.note('vox')
        st = I.state()
        man = I.lookup('redeclipse.prefabs:TEXMAN')
        for n in ('emit_conf', 'copy_data'):
            f = I.getattr_(man, n, st, None)
            while f.op == 'bm':
                f = f.args[1]
            I.intrinsics[f.args[0].qual] = self.note(n)
        I.intrinsics['redeclipse.voxel:VoxelWorld.to_octree'] = self.octree
        I.load(self.mod)
        ext = I.cfg['ext']
        ext['rooms write'] = self.write
        self.log.clear()

    def note(self, what):
        def h(I, a, kw, st, node):
            self.log.append((what, tuple(a) + tuple(kw.values()), I.loc(node)))
            return NONE
        return h

    def octree(self, I, a, kw, st, node):
        self.tree = mk('sym', 'octree %d' % len(self.log))
        self.log.append(('octree', a[0], I.loc(node)))
        return self.tree

    def parse(self, I, a, kw, st, node):
        m = Gen.parse(self, I, a, kw, st, node)
        I.setattr_(m, 'write', mk('ext', 'rooms write'), st, None)
        I.setattr_(m, 'world', st.alloc(Seq('list', ())), st, None)
        return m

    def write(self, I, a, kw, st, node):
        self.log.append(('write', ((list(a) + list(kw.values()))[0], I.getattr_(self.map, 'world', st, None), items(st, I.getattr_(self.map, 'ents', st, None))), I.loc(node)))
        return NONE


def rooms(ctx):
    G = Rooms(ctx)
    f = G.I.lookup('redeclipse.cli.rooms:main')
    loc = 'redeclipse/cli/rooms.py'
    for size, seed, n in ((None, None, None), (128, 7, 12), (256, 0, '30'), (1000, 2 ** 40 + 1, 123457), (8, -3, 1), (64, 65536, '0')):
        for debug in (None, True):
            for vox in (False, True):
                key = 'rooms: size %s, seed %s, rooms %s, debug %s, magica %s' % (size, seed, n, debug, vox)
                try:
                    bad = rooms_run(G, f, size, seed, n, debug, vox)
                except (GiveUp, evalt.Unknown) as e:
                    ctx.undecided(key, loc, str(e)[:200])
                    continue
                ctx.require(bad is None, key, loc, '%s [%s]' % (bad, key))


def rooms_run(G, f, size, seed, n, debug, vox):
    I = G.I
    st = I.state()
    G.log.clear()
    G.made, G.mirror, G.map = 0, 4, None
    G.old = st.alloc(Inst(None, {}, where='old'))

    def handle(name):
        return st.alloc(Inst(None, {'name': K(name)}, where='file'))
    kw = {'mpz_in': handle('/maps/in.mpz'), 'mpz_out': handle('/maps/out.mpz')}
    for k, v in (('size', size), ('seed', seed), ('rooms', n)):
        if v is not None:
            kw[k] = K(v)
    if debug is not None:
        kw['debug'] = TRUE
    kw['magica'] = handle('out.vox') if vox else NONE
    I.call(f, [], kw, st, None)
    if st.dead:
        return 'the run fails: %s' % show_dead(st)
    log = G.log
    kinds = [x[0] for x in log]

    def only(k):
        l = [x for x in log if x[0] == k]
        return l[0] if len(l) == 1 else None
    for k, what in (('seed', 'the random numbers are seeded'), ('parse', 'the map is read'), ('upm', 'a position manager is made'), ('register', 'a starting room is registered'),
                    ('place', 'rooms are placed'), ('caps', 'open doors are closed'), ('emit_conf', 'the config is written'), ('copy_data', 'the images are copied'), ('octree', 'the octree is made'), ('write', 'the map is written')):
        if only(k) is None:
            return '%s %d times' % (what, kinds.count(k))
    if only('seed')[1] is not K(42 if seed is None else seed):
        return 'the random numbers are seeded with %s' % show(only('seed')[1])
    if any(x[0] in ('dice', 'register', 'place', 'caps', 'render') for x in log[:log.index(only('seed'))]):
        return 'something random comes before the random numbers are seeded'
    if only('parse')[1] is not K('/maps/in.mpz'):
        return 'the map that is read is %s' % show(only('parse')[1])
    order = [k for k in kinds if k in ('register', 'place', 'caps')]
    if order != ['register', 'place', 'caps']:
        return 'the steps come in the order %s' % ', '.join(order)
    if only('upm')[1].get('world_size') is not K(128 if size is None else size):
        return 'the position manager gets %s' % show(only('upm')[1].get('world_size', NONE))
    o = st.obj(only('register')[1])
    if o is None or getattr(o, 'cls', None) is None or o.cls.name != 'SpawnRoom':
        return 'what is registered first is no SpawnRoom'
    for k, b in (('pos', 'redeclipse.prefabs:STARTING_POSITION'), ('orientation', 'redeclipse.vector.orientations:EAST')):
        a, b = I.getattr_(only('register')[1], k, st, None), I.lookup(b)
        if [I.getattr_(a, q, st, None) for q in 'xyz'] != [I.getattr_(b, q, st, None) for q in 'xyz']:
            return 'the %s of the starting room is another one' % k
    p = only('place')[1].get('rooms', NONE)
    if p is not K(200 if n is None else int(n)):
        return 'the number of rooms to place is %s' % show(p)
    for k, q in (('place', 'possible_rooms'), ('caps', 'possible_endcaps')):
        l = items(st, only(k)[1].get(q, NONE))
        if not l or not all(x.op == 'cls' and G.base in x.args[0].mro for x in l):
            return 'the %s are %s' % (q, show(only(k)[1].get(q, NONE))[:80])
        if only(k)[1].get('debug', FALSE) is not (TRUE if debug else FALSE):
            return 'debug is not passed on'
    drawn = [x[1] for x in log if x[0] == 'render']
    if [d[0] for d in drawn] != list(range(1, G.made + 1)):
        return 'the rooms drawn are %s of %d' % ([d[0] for d in drawn], G.made)
    v = only('octree')[1]
    if any(len(d[1]) < 2 or d[1][0] is not v or d[1][1] is not G.map for d in drawn):
        return 'rooms are drawn into another world or map than the one that is written'
    if any(x[0] == 'render' for x in log[log.index(only('octree')):] + log[log.index(only('emit_conf')):]):
        return 'rooms are drawn after the octree or the config was made'
    if only('emit_conf')[1][1:] != (kw['mpz_out'],):
        return 'the config is written for another file'
    w = only('write')
    if w[1][0] is not K('/maps/out.mpz'):
        return 'the map is written to %s' % show(w[1][0])[:60]
    if w[1][1] is not G.tree:
        return 'the map is written with another octree than the one of the world'
    l = w[1][2]
    if l is None:
        raise GiveUp('the entities are not known')
    names = [st.obj(e).cls.name if st.obj(e) is not None and getattr(st.obj(e), 'cls', None) else '?' for e in l[1:]]
    if l[:1] != [G.old] or names != ['Sunlight']:
        return 'the entities of the map that is written are not those it had and a Sunlight'
    x = [e for e in log if e[0] == 'vox']
    if len(x) != vox:
        return 'voxels are written %d times' % len(x)
    if vox and (x[0][1][0] is not v or x[0][1][1] is not kw['magica'] or x[0][1][2] is not I.lookup('redeclipse.prefabs:TEXMAN')):
        return 'the voxels of something else are written, or to another file'
    return None


# ---------------------------------------------------------------- options
class Script:
    """a module run as a script with a command line; main and output are stand-ins that note what they get"""

    def __init__(self, ctx, module, argv, calls):
        self.calls = []
        L = self.line = Line(argv)
        I = self.I = engine(ctx, {'ext': L.ext(), 'main': module, 'max_steps': 5000000, 'intrinsics': {q: self.note(q) for q in calls}}, ('redeclipse', module))
        self.st = I.state()
        self.dead = I.load_dead.get(module)

    def note(self, q):
        def h(I, a, kw, st, node):
            self.calls.append((q, list(a), dict(kw)))
            return mk('tup', mk('sym', 'the world'), mk('sym', 'the map'), mk('sym', 'the manager')) if q.endswith(':main') else NONE
        return h

    def bound(self, c):
        """arguments of a call by name"""
        f = self.I.lookup(c[0]).args[0]
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        out = dict(zip(names, c[1]))
        out.update(c[2])
        for n, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if n not in out:
                v = evalconst(d)
                if v is None:
                    raise GiveUp('the default of %s' % n)
                out[n] = v
        return out

    def handle(self, v):
        return self.line.handles.get(v)


def evalconst(d):
    import ast
    try:
        return K(eval(compile(ast.Expression(d), '', 'eval'), {'__builtins__': {}}))
    except Exception:
        return None


GENS = [
    ('redeclipse.cli.magica_rooms', ['in.mpz'], {}),
    ('redeclipse.cli.magica_rooms', 'in.mpz --seed 3 --magica out.vox --rooms 20 --mpz_out out.mpz'.split(), {'seed': 3, 'rooms': 20, 'magica': 'out.vox', 'mpz_out': 'out.mpz'}),
    ('redeclipse.cli.magica_rooms', '--size 128 --ctf --mirror 4 --graph g.json in.mpz'.split(), {'size': 128, 'ctf': True, 'mirror': 4, 'graph': 'g.json'}),
    ('redeclipse.cli.magica_rooms', 'in.mpz --debug --mirror 1 --flavor maliwan crushed_blacks'.split(), {'debug': True, 'mirror': 1, 'flavor': ['maliwan', 'crushed_blacks']}),
    ('redeclipse.cli.magica_rooms', 'in.mpz --flavor space_station --seed 0 --rooms 0 --mpz_out a.mpz --graph b.json --magica c.vox'.split(),
     {'flavor': ['space_station'], 'seed': 0, 'rooms': 0, 'mpz_out': 'a.mpz', 'graph': 'b.json', 'magica': 'c.vox'}),
    ('redeclipse.cli.magica_rooms', 'in.mpz --mirror 3'.split(), None),
    ('redeclipse.cli.magica_rooms', 'in.mpz --flavor sunny'.split(), None),
    ('redeclipse.cli.magica_rooms', 'in.mpz --seed x'.split(), None),
    ('redeclipse.cli.magica_rooms', [], None),
    ('redeclipse.cli.rooms', 'in.mpz out.mpz'.split(), {'size': 256, 'mpz_out': 'out.mpz'}),
    ('redeclipse.cli.rooms', 'in.mpz out.mpz --seed 3 --rooms 20 --magica out.vox --size 128 --debug'.split(), {'seed': 3, 'rooms': 20, 'magica': 'out.vox', 'mpz_out': 'out.mpz', 'size': 128, 'debug': True}),
    ('redeclipse.cli.rooms', '--rooms 54321 --seed 4000000000 --size 2048 in.mpz out.mpz'.split(), {'seed': 4000000000, 'rooms': 54321, 'mpz_out': 'out.mpz', 'size': 2048}),
    ('redeclipse.cli.magica_rooms', '--rooms 54321 --seed 4000000000 --size 2048 in.mpz'.split(), {'seed': 4000000000, 'rooms': 54321, 'size': 2048}),
    ('redeclipse.cli.rooms', 'in.mpz'.split(), None),
]
DEFAULT = {'size': 256, 'seed': 42, 'rooms': 200, 'debug': False, 'ctf': False, 'mirror': 2, 'flavor': None}
MODE = {'mpz_in': ('r', ''), 'mpz_out': ('w', ''), 'magica': ('w', 'b'), 'graph': ('w', 't')}


def options(ctx):
    for module, argv, want in GENS:
        key = '%s %s' % (module.rsplit('.', 1)[1], ' '.join(argv))
        loc = module.replace('.', '/') + '.py'
        S = Script(ctx, module, argv, (module + ':main', CLI + 'output'))
        try:
            bad = option(S, module, want)
        except (GiveUp, evalt.Unknown, AnalysisError) as e:
            ctx.undecided(key, loc, str(e)[:200])
            continue
        ctx.require(bad is None, key, loc, '%s [%s]' % (bad, key))


def file_ok(S, v, name, path):
    """what is wrong with a file"""
    h = S.handle(v) if v is not None else None
    if path is None:
        return None if v is None or v is NONE else '%s is %s, though none was given' % (name, show(v)[:40])
    if h is None:
        return '%s is %s instead of the file %s' % (name, show(v)[:40] if v is not None else 'not passed on', path)
    if h[0] != path:
        return '%s is the file %s instead of %s' % (name, h[0], path)
    m, b = MODE[name]
    if m not in h[1] and not (m == 'r' and not set(h[1]) & set('wax')):
        return '%s is opened with mode %s' % (name, h[1])
    if b == 'b' and 'b' not in h[1]:
        return '%s is opened as text, but bytes are written to it' % name
    if b == 't' and 'b' in h[1]:
        return '%s is opened for bytes, but text is written to it' % name
    return None


def option(S, module, want):
    I, st = S.I, S.st
    main = [c for c in S.calls if c[0] == module + ':main']
    out = [c for c in S.calls if c[0] == CLI + 'output']
    if want is None:
        if S.calls:
            return 'the tool goes on with a command line that it has to refuse'
        return None if S.dead else 'the tool ends without an error'
    if S.dead:
        return 'the tool ends with %s' % show(S.dead)
    if len(main) != 1:
        return 'main is called %d times' % len(main)
    b = S.bound(main[0])
    bad = file_ok(S, b.get('mpz_in'), 'mpz_in', 'in.mpz')
    if bad:
        return bad
    names = ('size', 'seed', 'rooms', 'debug') + (('ctf', 'mirror', 'flavor') if module.endswith('magica_rooms') else ())
    for n in names:
        w, g = want.get(n, DEFAULT[n]), b.get(n)
        if g is None:
            return '%s is not passed on' % n
        if isinstance(w, list) or n == 'flavor':
            l = [] if g is NONE else items(st, g)
            if l is None:
                raise GiveUp('%s is %s' % (n, show(g)[:60]))
            if [kv(x) if x.op == 'k' else x for x in l] != (w or []):
                return '%s is %s instead of %s' % (n, [show(x) for x in l], w)
            continue
        if g.op != 'k':
            raise GiveUp('%s is %s' % (n, show(g)[:60]))
        x = kv(g)
        if isinstance(w, bool):
            x = bool(x)
        if n == 'rooms' and isinstance(x, str):
            x = int(x)
        if x != w or isinstance(x, str):
            return '%s is %r instead of %r' % (n, x, w)
    if module.endswith('.rooms'):
        if out:
            return 'output is called'
        for n in ('mpz_out', 'magica'):
            bad = file_ok(S, b.get(n), n, want.get(n))
            if bad:
                return bad
        return None
    if len(out) != 1:
        return 'the results are output %d times' % len(out)
    if S.calls.index(out[0]) < S.calls.index(main[0]):
        return 'output comes before main'
    o = S.bound(out[0])
    for n, w in (('v', mk('sym', 'the world')), ('mymap', mk('sym', 'the map')), ('upm', mk('sym', 'the manager')), ('prefabs', mk('mod', 'redeclipse.prefabs'))):
        if o.get(n) is not w:
            return 'output gets %s as %s' % (show(o.get(n, NONE))[:60], n)
    for n in ('mpz_out', 'magica', 'graph'):
        bad = file_ok(S, I.getattr_(o['args'], n, st, None, quiet=True) or NONE, n, want.get(n))
        if bad:
            return bad
    return None
