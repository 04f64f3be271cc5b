"""The end of a run: flavours, skies, the config file, the map and the graph of the rooms."""
import os
from .common import *
from .. import evalt
from ..out import GiveUp
from .textures import Luck

FL = 'redeclipse.worldflavors:'
FLOC = 'redeclipse/worldflavors.py'
SK = 'redeclipse.skybox:'
SLOC = 'redeclipse/skybox/__init__.py'
CLI = 'redeclipse.cli:'
CLOC = 'redeclipse/cli/__init__.py'


def items(st, v):
    o = st.obj(v)
    if isinstance(o, Seq) and all(p[0] == 'i' for p in o.pieces):
        return [p[1] for p in o.pieces]
    if v is not None and v.op == 'tup':
        return list(v.args)
    return None


def texts(st, v):
    l = items(st, v)
    if l is None or not all(iskt(x, 'str') for x in l):
        return None
    return [kv(x) for x in l]


def where_fn(f, other):
    try:
        return f.args[0].loc if f.op == 'fn' else f.args[1].args[0].loc
    except Exception:
        return other


# ---------------------------------------------------------------- flavours
def flavours(ctx):
    ctx.rule('every flavour that can be chosen is evaluated; update is evaluated for lists of flavours, on worlds with and without config lines of their own; the lines are compared')

    def go():
        I = engine(ctx, {'max_steps': 10000000, 'unroll': 1000}, ('redeclipse.worldflavors',))
        st = I.state()
        names = texts(st, I.lookup(FL + 'choices'))
        if names is None:
            raise AnalysisError('the choices are not known')
        lines = {}
        for n in names:
            try:
                f = I.lookup(FL + n)
            except AnalysisError:
                f = None
            if f is None or f.op != 'fn':
                ctx.violation('choice ' + n, FLOC, 'the flavour %s can be chosen, but there is no such function' % n)
                continue
            st = I.state()
            got = [texts(st, I.call(f, [], {}, st, None)) for _ in range(2)]
            if st.dead:
                ctx.violation('choice ' + n, f.args[0].loc, 'the flavour %s fails' % n)
                continue
            if got[0] is None:
                ctx.undecided('choice ' + n, f.args[0].loc, 'the lines are not known')
                continue
            bad = None
            if got[0] != got[1]:
                bad = 'gives other lines the second time'
            for l in got[0]:
                w = l.split()
                if '\n' in l or len(w) != 2 or not w[0].isalnum() or not number(w[1]):
                    bad = 'has the line %r, which is not a name and a number' % l
            if len({l.split()[0] for l in got[0] if l.split()}) != len(got[0]):
                bad = 'sets a variable twice'
            ctx.require(bad is None, 'choice ' + n, f.args[0].loc, 'the flavour %s %s' % (n, bad))
            lines[n] = got[0]
        if len(set(names)) != len(names):
            ctx.violation('choices', FLOC, 'a flavour is listed twice')
        ns = [n for n in names if n in lines]
        lists = [None, []] + [[a] for a in ns] + [[a, b] for a in ns for b in ns] + [ns, ns[::-1], ns + ns]
        f = I.lookup(FL + 'update')
        if f is None or f.op != 'fn':
            raise AnalysisError('no function update')
        loc = f.args[0].loc
        for fl in lists:
            for own in ([], ['fov 90', 'gravity 7']):
                key = 'update with %s, %d lines before' % (fl, len(own))
                try:
                    st = I.state()
                    worlds = []
                    for again in range(2):
                        w = st.alloc(Inst(None, {'cfg_extra': st.alloc(Seq('list', tuple(('i', K(l)) for l in own)))}, where='map'))
                        arg = NONE if fl is None else st.alloc(Seq('list', tuple(('i', K(n)) for n in fl)))
                        r = I.call(f, [w, arg], {}, st, None)
                        worlds.append((w, r))
                    if st.dead:
                        ctx.violation(key, loc, 'update fails for the flavours %s' % fl)
                        continue
                    want = own + [l for n in fl or [] for l in lines[n]]
                    bad = None
                    for w, r in worlds:
                        if r is not w:
                            bad = 'does not return the world it is given'
                        got = texts(st, I.getattr_(w, 'cfg_extra', st, None))
                        if got is None:
                            raise evalt.Unknown('the lines are not known')
                        if got != want:
                            bad = 'leaves the lines %s instead of %s' % (got, want)
                    ctx.require(bad is None, key, loc, 'update with the flavours %s %s' % (fl, bad))
                    ctx.stat('updates_compared')
                except (evalt.Unknown, GiveUp) as e:
                    ctx.undecided(key, loc, str(e)[:200])
        return I
    return guarded(ctx, 'flavours', go)


def number(w):
    try:
        float(w)
        return True
    except ValueError:
        return False


# ---------------------------------------------------------------- skies
def skies(ctx):
    ctx.rule('setting up every sky of the package is evaluated with stand-ins for the file system; the images that it copies are compared with those that its short path stands for and with the files of the package')

    def go():
        copied, made, there = [], [], [FALSE]

        def copy(I, a, kw, st, node):
            copied.append((a[0], a[1] if len(a) > 1 else kw.get('dst'), I.loc(node)))
            return NONE

        def make(I, a, kw, st, node):
            made.append((a[0], I.loc(node)))
            if there[0] is TRUE and kw.get('exist_ok') is not TRUE:
                return I.fail(st, 'FileExistsError', 'exists', node)
            return NONE
        ext = {'shutil.copy': copy, 'shutil.copyfile': copy, 'shutil.copy2': copy, 'os.makedirs': make, 'os.mkdir': make,
               'os.path.exists': lambda I, a, kw, st, node: there[0], 'os.path.isdir': lambda I, a, kw, st, node: there[0],
               'os.path.abspath': lambda I, a, kw, st, node: a[0], 'os.path.realpath': lambda I, a, kw, st, node: a[0]}
        I = engine(ctx, {'ext': ext, 'max_steps': 10000000, 'unroll': 1000}, ('redeclipse', 'redeclipse.skybox'))
        base = I.lookup(SK + 'Skybox')
        if base is None or base.op != 'cls':
            raise AnalysisError('no class Skybox')
        found = 0
        for m in sorted(I.p.modules):
            if not m.startswith('redeclipse.skybox'):
                continue
            I.load(m)
            for v in I.load_state.obj(Ref(I.p.modules[m].oid)).fields.values():
                if v.op != 'cls' or base.args[0] not in v.args[0].mro or v is base or v.args[0].module.name != m:
                    continue
                found += 1
                for there[0] in (FALSE, TRUE):
                    try:
                        sky(ctx, I, v, copied, made, there[0])
                    except (evalt.Unknown, GiveUp) as e:
                        ctx.undecided(v.args[0].name, SLOC, str(e)[:200])
        if not found:
            ctx.undecided('skies', SLOC, 'no sky is found')
        ctx.stat('skies', found)
        return I
    return guarded(ctx, 'skies', go)


SIDES = ('bk', 'dn', 'ft', 'lf', 'rt', 'up')


def sky(ctx, I, cls, copied, made, there):
    name = cls.args[0].name
    loc = '%s:%d' % (cls.args[0].module.rel, cls.args[0].node.lineno)
    key = '%s, folder %s' % (name, 'exists' if there is TRUE else 'is missing')
    del copied[:], made[:]
    st = I.state()
    game = '/games/red eclipse'
    s = I.call(cls, [K(game)], {}, st, None)
    if st.dead:
        ctx.violation(key, loc, 'setting up %s fails when its folder %s' % (name, 'exists' if there is TRUE else 'is missing'))
        return
    short = I.call(I.getattr_(s, 'get_short_path', st, None), [], {}, st, None)
    if not iskt(short, 'str'):
        raise evalt.Unknown('the short path is not known')
    short = kv(short)
    pkg = os.path.dirname(cls.args[0].module.path)
    want = {os.path.normpath(os.path.join(game, 'data', short + '_' + k + '.jpg')) for k in SIDES}
    got = set()
    for src, dst, l in copied:
        if not iskt(src, 'str') or not iskt(dst, 'str'):
            raise evalt.Unknown('what is copied is not known: %s' % show(src)[:80])
        src, dst = kv(src), kv(dst)
        real = os.path.join(pkg, os.path.basename(src))
        if os.path.dirname(src) not in (os.path.dirname(cls.args[0].module.path), os.path.dirname(cls.args[0].module.rel), ''):
            raise evalt.Unknown('it is copied from %s' % src)
        if not os.path.isfile(real):
            ctx.violation(key, l, '%s copies %s, which does not exist in the package' % (name, os.path.basename(src)))
            return
        if not dst.endswith('.jpg'):
            dst = os.path.join(dst, os.path.basename(src))
        if os.path.basename(dst)[-7:] != os.path.basename(src)[-7:]:
            ctx.violation(key, l, '%s copies %s to %s, the image of another side' % (name, os.path.basename(src), os.path.basename(dst)))
            return
        got.add(os.path.normpath(dst))
    bad = None
    if got != want:
        q = sorted(got ^ want)[0]
        bad = 'does not provide %s, which its short path %s stands for' % (q, short) if q in want else 'copies an image to %s, which its short path %s does not stand for' % (q, short)
    if there is FALSE and not bad:
        dirs = {os.path.normpath(kv(m)) for m, _ in made if iskt(m, 'str')}
        if os.path.dirname(sorted(want)[0]) not in dirs:
            bad = 'does not create the folder that the images are copied to'
    ctx.require(bad is None, key, loc, '%s %s' % (name, bad))
    ctx.stat('images_compared', len(got))
    # attached to a map, it is the variable "skybox"
    mp = I.lookup('redeclipse:Map')
    f = I.getattr_(mp, 'skybox', st, None)
    d = st.alloc(Dic((('i', (K(b'other'), K(b'x\0'))),)))
    m = st.alloc(Inst(mp.args[0], {'map_vars': d}, where='map'))
    I.call(I.getattr_(m, 'skybox', st, None), [s], {}, st, None)
    o = st.obj(I.getattr_(m, 'map_vars', st, None))
    if st.dead:
        ctx.violation(key + ', map', where_fn(f, 'redeclipse/__init__.py'), 'attaching %s to a map fails' % name)
        return
    if not isinstance(o, Dic) or not all(p[0] == 'i' for p in o.pieces):
        raise evalt.Unknown('the variables of the map are not known')
    v = {show(p[1][0]): p[1][1] for p in o.pieces}
    now = v.get(show(K(b'skybox')))
    if now is None or len(v) != 2:
        ctx.violation(key + ', map', where_fn(f, 'redeclipse/__init__.py'), 'attaching %s to a map leaves the variables %s' % (name, sorted(v)))
        return
    val = kv(now) if isk(now) else None
    if val is None:
        raise evalt.Unknown('the variable is %s' % show(now)[:80])
    val = val.decode('latin-1') if isinstance(val, bytes) else str(val)
    ctx.require(val.rstrip('\0') == short, key + ', map', where_fn(f, 'redeclipse/__init__.py'), 'attaching %s to a map sets the skybox to %r instead of %r' % (name, val, short))


# ---------------------------------------------------------------- output files
class Run:
    def __init__(self, ctx):
        self.ctx = ctx
        luck = Luck()
        self.dumped = []
        ext = luck.ext()
        ext.update({'shutil.copy': self.note('copy'), 'shutil.copyfile': self.note('copy'), 'shutil.copy2': self.note('copy'),
                    'os.path.exists': lambda I, a, kw, st, node: FALSE, 'os.path.isdir': lambda I, a, kw, st, node: FALSE,
                    'os.makedirs': lambda I, a, kw, st, node: NONE, 'os.mkdir': lambda I, a, kw, st, node: NONE,
                    'os.path.realpath': lambda I, a, kw, st, node: a[0], 'os.path.abspath': lambda I, a, kw, st, node: a[0],
                    'id': self.ident, 'json.dump': self.dump, 'json.dumps': self.dumps})
        for n in ('octree', 'write', 'vox', 'copies'):
            ext['run ' + n] = self.note(n)
        t = Tape().cfg({'ext': ext, 'max_steps': 10000000, 'unroll': 1000, 'intrinsics': {'redeclipse.magicavoxel.writer:to_magicavoxel': self.note('vox')}})
        t['ext']['run octree'] = self.octree
        t['ext']['run close'] = lambda I, a, kw, st, node: NONE
        for n in ('mpz_out', 'magica', 'graph'):
            t['ext']['run text ' + n] = self.text(n)
        t['ext']['run write'] = self.write
        self.I = engine(ctx, t, ('redeclipse', 'redeclipse.textures', 'redeclipse.cli', 'redeclipse.vector'))

    def note(self, what):
        def h(I, a, kw, st, node):
            st.emit('note', (what, tuple(a)), I.loc(node))
            return NONE
        return h

    def text(self, n):
        def h(I, a, kw, st, node):
            st.emit('note', ('text', (self.h[n], I.freeze(a[0], st))), I.loc(node))
            return mk('nwritten', ty='int')
        return h

    def octree(self, I, a, kw, st, node):
        st.emit('note', ('octree', ()), I.loc(node))
        return mk('sym', 'the octree of the world')

    def write(self, I, a, kw, st, node):
        st.emit('note', ('map', (a[0] if a else kw.get('path', NONE), I.getattr_(self.map, 'world', st, None))), I.loc(node))
        return NONE

    def ident(self, I, a, kw, st, node):
        if len(a) != 1:
            return None
        return number_of(a[0])

    def dump(self, I, a, kw, st, node):
        if len(a) < 2:
            return None
        st.emit('note', ('json', (I.freeze(a[0], st), a[1])), I.loc(node))
        return NONE

    def dumps(self, I, a, kw, st, node):
        return mk('jsontext', I.freeze(a[0], st), ty='str')

    def fn(self, name):
        return mk('ext', 'run ' + name)

    def go(self, mpz, vox, graph, extra, rooms=(), links=(), occupied=()):
        """effects of output; handles"""
        I = self.I
        self.st = st = I.state()
        f = I.lookup(CLI + 'output')
        if f is None or f.op != 'fn':
            raise AnalysisError('no function output')
        texman = I.call(I.lookup('redeclipse.textures:AutomatedMagicaTextureManager'), [], {}, st, None)
        for c in ((0.5, 0.25, 0), (1, 0, 0)):
            I.call(I.getattr_(texman, 'get_colour', st, None), [K(x) for x in c], {}, st, None)
        h = {}
        for n, p in (('mpz_out', mpz), ('magica', vox), ('graph', graph)):
            h[n] = NONE if p is None else st.alloc(Inst(None, {'name': K(p), 'write': self.fn('text ' + n), 'close': self.fn('close'), 'flush': self.fn('close')}, where='file'))
        self.h = h
        args = st.alloc(Inst(None, dict(h), where='args'))
        pre = st.alloc(Inst(None, {'TEXMAN': texman, 'LIGHTMAN': NONE}, where='prefabs'))
        v = st.alloc(Inst(None, {'to_octree': self.fn('octree')}, where='world'))
        self.map = st.alloc(Inst(None, {'cfg_extra': st.alloc(Seq('list', tuple(('i', K(l)) for l in extra))), 'world': st.alloc(Inst(None, {}, where='old world')), 'write': self.fn('write')}, where='map'))
        rs = []
        for n in rooms:
            rs.append(st.alloc(Inst(None, {'name': K(n)}, where='room')))
        cell = lambda p: I.call(I.lookup('redeclipse.vector:CoarseVector'), [K(x) for x in p], {}, st, None)
        occ = st.alloc(Dic(tuple(('i', (cell(p), rs[i])) for p, i in occupied)))
        lk = st.alloc(Seq('list', tuple(('i', mk('tup', cell(a), cell(b))) for a, b in links)))
        upm = st.alloc(Inst(None, {'rooms': st.alloc(Seq('list', tuple(('i', r) for r in rs))), 'links': lk, 'occupied': occ}, where='upm'))
        self.rooms = rs
        self.texman = texman
        at = len(st.eff)
        I.call(f, [v, self.map, upm, pre, args], {}, st, None)
        self.loc = f.args[0].loc
        return list(st.eff)[at:], h


def final(effs):
    """name -> text of the files that are written by name, notes in order"""
    files, cur, notes = {}, {}, []
    for e in effs:
        if e.kind in ('if', 'loop', 'top', 'try'):
            raise evalt.Unknown('what is written is not known (%s)' % e.kind)
        if e.kind == 'open':
            h = e.data[0]
            path, mode = h.args[1], h.args[2]
            if not iskt(path, 'str') or not iskt(mode, 'str'):
                raise evalt.Unknown('a file is not known: %s' % show(path)[:80])
            cur[h] = kv(path)
            m = kv(mode)
            if 'w' in m:
                files[kv(path)] = []
            elif 'a' in m:
                files.setdefault(kv(path), [])
            notes.append(('open', kv(path), m, e.loc))
        elif e.kind == 'write':
            if e.data[0] in cur:
                files[cur[e.data[0]]].append(e.data[1])
            else:
                notes.append(('text', (e.data[0], e.data[1]), e.loc))
        elif e.kind == 'note':
            notes.append(e.data + (e.loc,))
    return files, notes


def text(parts):
    if not all(iskt(p, 'str') for p in parts):
        raise evalt.Unknown('text is not known')
    return ''.join(kv(p) for p in parts)


NAMES = ('/maps/castle.mpz', '/maps/a.b.mpz', 'x.mpz', '/home/u/.redeclipse/maps/long name.mpz')
EXTRA = ([], ['gravity 0'], ['gravity 0', 'impulselimit 120', 'gravity 5'], ['ambient 0', 'ambient 0'])


def outputs(ctx):
    ctx.rule('output is evaluated for every choice of output files, several names and config lines, with stand-ins for the world and the map; the config that remains, the map and the order of the steps are compared')

    def go():
        R = Run(ctx)
        for mpz in NAMES + (None,):
            for vox in (None, '/maps/out.vox'):
                for graph in (None, '/maps/out.json'):
                    for extra in EXTRA:
                        key = 'map %s, voxels %s, graph %s, %d lines' % (mpz, vox, graph, len(extra))
                        try:
                            out = one(R, mpz, vox, graph, extra)
                            ctx.require(out is None, key, R.loc, '%s [%s]' % (out, key))
                            ctx.stat('runs_compared')
                        except (evalt.Unknown, GiveUp) as e:
                            ctx.undecided(key, CLOC, str(e)[:200])
        return R.I
    return guarded(ctx, 'output', go)


def one(R, mpz, vox, graph, extra):
    I = R.I
    effs, h = R.go(mpz, vox, graph, extra, ('a', 'b'), [((0, 0, 0), (1, 0, 0))], [((0, 0, 0), 0), ((1, 0, 0), 1)])
    if R.st.dead:
        return 'output fails'
    files, notes = final(effs)
    kinds = [n[0] for n in notes]
    if vox is None:
        if 'vox' in kinds:
            return 'voxels are written although no file is given'
    else:
        l = [n for n in notes if n[0] == 'vox']
        if len(l) != 1 or len(l[0][1]) < 3 or l[0][1][1] is not h['magica']:
            return 'the voxels are not written to the given file once'
        if l[0][1][2] is not R.texman:
            return 'the voxels are written with another texture manager'
    if graph is None and 'json' in kinds:
        return 'a graph is written although no file is given'
    if graph is not None and not any(n[0] == 'json' and n[1][1] is h['graph'] or n[0] == 'text' and n[1][0] is h['graph'] for n in notes):
        return 'no graph is written to the given file'
    if mpz is None:
        if 'map' in kinds or files:
            return 'a map or config is written although no file is given'
        return None
    m = [n for n in notes if n[0] == 'map']
    if len(m) != 1:
        return 'the map is written %d times' % len(m)
    if m[0][1][0] is not K(mpz):
        return 'the map is written to %s instead of %s' % (show(m[0][1][0]), mpz)
    if m[0][1][1] is not mk('sym', 'the octree of the world'):
        return 'the map is written with %s instead of the octree of the world' % show(m[0][1][1])
    # the config that the texture manager writes on its own
    at = len(R.st.eff)
    I.call(I.getattr_(R.texman, 'emit_conf', R.st, None), [h['mpz_out']], {}, R.st, None)
    alone, _ = final(list(R.st.eff)[at:])
    if len(alone) != 1:
        raise evalt.Unknown('the texture manager writes %d files' % len(alone))
    (name, slots), = alone.items()
    if sorted(files) != [name]:
        return 'the files %s are written instead of %s' % (sorted(files), name)
    got, slots = text(files[name]), text(slots)
    if not got.startswith(slots):
        return 'the config does not hold the textures of the texture manager'
    rest = got[len(slots):].split('\n')
    if slots and not slots.endswith('\n'):
        if rest[0] != '':
            return 'the first line after the textures continues the last of them'
        rest = rest[1:]
    if rest[-1] == '':
        rest = rest[:-1]
    rest = [l for l in rest if l.strip()]
    if rest != extra:
        return 'the config ends with the lines %s instead of %s' % (rest, extra)
    return None


# ---------------------------------------------------------------- the graph
STORIES = [
    ('no rooms', (), (), ()),
    ('one room', ('hall',), (), (((0, 0, 0), 0),)),
    ('two linked rooms', ('hall', 'stair'), (((0, 0, 0), (1, 0, 0)),), (((0, 0, 0), 0), ((1, 0, 0), 1))),
    ('same names', ('hall', 'hall', 'hall'), (((0, 0, 0), (1, 0, 0)), ((2, 0, 0), (1, 0, 0))), (((0, 0, 0), 0), ((1, 0, 0), 1), ((2, 0, 0), 2))),
    ('a link into the void', ('hall', 'stair'), (((0, 0, 0), (5, 0, 0)), ((7, 7, 1), (1, 0, 0)), ((8, 8, 8), (9, 9, 9))), (((0, 0, 0), 0), ((1, 0, 0), 1))),
    ('large rooms', ('big', 'small', 'big'), (((1, 1, 0), (2, 1, 0)), ((2, 1, 0), (3, 1, 0)), ((2, 1, 0), (3, 1, 0))), (((0, 0, 0), 0), ((0, 1, 0), 0), ((1, 1, 0), 0), ((2, 1, 0), 1), ((3, 1, 0), 2), ((3, 1, 1), 2))),
    ('a room linked with itself', ('ring',), (((0, 0, 0), (0, 1, 0)),), (((0, 0, 0), 0), ((0, 1, 0), 0))),
    ('the same link in both directions', ('a', 'b'), (((0, 0, 0), (1, 0, 0)), ((1, 0, 0), (0, 0, 0))), (((0, 0, 0), 0), ((1, 0, 0), 1))),
]


def graph(ctx):
    ctx.rule('the graph that output writes is evaluated for several sets of rooms and links; its nodes and links are compared with them')
    ctx.assumption('id() gives different objects that exist at the same time different numbers')

    def go():
        R = Run(ctx)
        for name, rooms, links, occ in STORIES:
            try:
                bad = drawn(R, rooms, links, occ)
                ctx.require(bad is None, name, R.loc, 'graph of %s: %s' % (name, bad))
                ctx.stat('graphs_compared')
            except (evalt.Unknown, GiveUp) as e:
                ctx.undecided(name, CLOC, str(e)[:200])
        return R.I
    return guarded(ctx, 'graph', go)


def drawn(R, rooms, links, occ):
    effs, h = R.go(None, None, '/maps/out.json', [], rooms, links, occ)
    if R.st.dead:
        return 'writing it fails'
    _, notes = final(effs)
    js = [n[1][0] for n in notes if n[0] == 'json' and n[1][1] is h['graph']]
    js += [n[1][1].args[0] for n in notes if n[0] == 'text' and n[1][0] is h['graph'] and n[1][1].op == 'jsontext']
    if len(js) != 1:
        raise evalt.Unknown('%d graphs are written' % len(js))
    data = value(js[0])
    if not isinstance(data, dict) or not isinstance(data.get('nodes'), list) or not isinstance(data.get('links'), list):
        raise evalt.Unknown('the graph is %s' % show(js[0])[:100])
    ids = [n.get('id') for n in data['nodes']]
    void = number_of(NONE)
    mine = [number_of(r) for r in R.rooms]
    for r, i in zip(R.rooms, mine):
        if ids.count(i) != 1:
            return 'room %d has %d nodes' % (R.rooms.index(r), ids.count(i))
    for n in data['nodes']:
        i = n.get('id')
        if i in mine:
            want = rooms[mine.index(i)]
            if n.get('label') != want or n.get('name') != want:
                return 'the node of room %s is called %s, %s' % (want, n.get('name'), n.get('label'))
        elif i is not void:
            return 'node %s stands for no room' % (show(i) if hasattr(i, 'op') else i)
    if ids.count(void) != 1:
        return 'there are %d nodes for the void' % ids.count(void)
    at = dict(occ)
    want = []
    for a, b in links:
        want.append(tuple(mine[at[p]] if p in at else void for p in (a, b)))
    got = [(l.get('source'), l.get('target')) for l in data['links']]
    if [set(g) for g in got] != [set(w) for w in want]:
        return '%d links join %s, not the rooms in the linked cells' % (len(got), [(nice(a, mine), nice(b, mine)) for a, b in got][:4])
    if got != want:
        return 'source and target of a link are exchanged'
    return None


def number_of(v):
    return mk('idof', K('object %s' % v.args[0]) if v.op == 'ref' else v, ty='int')


def nice(i, mine):
    return 'room %d' % mine.index(i) if i in mine else 'the void' if hasattr(i, 'op') and i.op == 'idof' else str(i)


def value(t):
    if t.op == 'k':
        return kv(t)
    if t.op in ('idof', 'sym'):
        return t
    if t.op == 'dic':
        out = {}
        for p in t.args[0]:
            if p[0] != 'i':
                raise evalt.Unknown('a dictionary is not known')
            out[value(p[1][0])] = value(p[1][1])
        return out
    if t.op == 'tup':
        return [value(x) for x in t.args]
    if t.op == 'seq':
        ps = next(x for x in t.args if isinstance(x, tuple))
        if not all(p[0] == 'i' for p in ps):
            raise evalt.Unknown('a list is not known')
        return [value(p[1]) for p in ps]
    raise evalt.Unknown('%s %s' % (t.op, show(t)[:60]))


# ---------------------------------------------------------------- the generator as a whole
GEN = 'redeclipse.cli.magica_rooms:main'
GLOC = 'redeclipse/cli/magica_rooms.py'
UPM = 'redeclipse.upm:UnusedPositionManager'


class Gen:
    """the main function of magica_rooms with stand-ins for its helpers; what happens is noted in order"""

    def __init__(self, ctx):
        self.log = []
        ext = {}
        for n in ('random', 'choice', 'randint', 'randrange', 'sample', 'shuffle', 'uniform', 'choices', 'gauss', 'getrandbits', 'SystemRandom'):
            ext['random.' + n] = self.dice(n)
        ext['random.seed'] = self.seed
        for n in range(1, 41):
            ext['gen render %d' % n] = self.render(n)
        intr = {CLI + 'parse': self.parse, 'redeclipse.worldflavors:update': self.flavour, UPM + '.__init__': self.upm, UPM + '.register_room': self.register,
                UPM + '.place_rooms': self.place, UPM + '.endcap': self.caps}
        self.I = engine(ctx, {'ext': ext, 'intrinsics': intr, 'max_steps': 10000000, 'unroll': 1000},
                        ('redeclipse', 'redeclipse.vector.orientations', 'redeclipse.entities', 'redeclipse.voxel', 'redeclipse.prefabs', 'redeclipse.cli', 'redeclipse.upm', 'redeclipse.cli.magica_rooms'))
        self.base = self.I.lookup('redeclipse.prefabs:Room').args[0]
        self.log.clear()

    def dice(self, n):
        def h(I, a, kw, st, node):
            self.log.append(('dice', n, I.loc(node)))
            return mk('dice', K(len(self.log)), ty='num') if n in ('random', 'uniform', 'randint', 'randrange') else None
        return h

    def seed(self, I, a, kw, st, node):
        self.log.append(('seed', a[0] if a else NONE, I.loc(node)))
        return NONE

    def parse(self, I, a, kw, st, node):
        self.log.append(('parse', a[0], I.loc(node)))
        self.ents = st.alloc(Seq('list', (('i', self.old),)))
        self.map = st.alloc(Inst(None, {'ents': self.ents, 'cfg_extra': st.alloc(Seq('list', ()))}, where='map'))
        return self.map

    def flavour(self, I, a, kw, st, node):
        args = list(a) + [kw[k] for k in ('world', 'flavors')[len(a):] if k in kw]
        self.log.append(('flavour', tuple(args), I.loc(node)))
        return args[0]

    def upm(self, I, a, kw, st, node):
        args = dict(zip(('world_size', 'mirror', 'noclip'), a[1:]))
        args.update(kw)
        self.log.append(('upm', args, I.loc(node)))
        self.manager = a[0]
        self.list = st.alloc(Seq('list', ()))
        for k, v in (('rooms', self.list), ('links', st.alloc(Seq('list', ()))), ('unoccupied', st.alloc(Seq('list', ()))), ('occupied', st.alloc(Dic(()))),
                     ('mirror', args.get('mirror', K(1))), ('world_size', args.get('world_size', NONE))):
            I.setattr_(a[0], k, v, st, None)
        return NONE

    def render(self, n):
        def h(I, a, kw, st, node):
            args = list(a) + [kw[k] for k in ('world', 'xmap')[len(a):] if k in kw]
            self.log.append(('render', (n, tuple(args)), I.loc(node)))
            return NONE
        return h

    def add_rooms(self, I, st, k):
        o = st.obj(self.list)
        ps = list(o.pieces)
        for _ in range(k):
            self.made += 1
            ps.append(('i', st.alloc(Inst(None, {'name': K('room %d' % self.made), 'render': mk('ext', 'gen render %d' % self.made)}, where='room'))))
        st.set(self.list.args[0], o.with_(ps))

    def register(self, I, a, kw, st, node):
        room = a[1] if len(a) > 1 else kw.get('room')
        self.log.append(('register', room, I.loc(node)))
        self.add_rooms(I, st, self.mirror)
        o = st.obj(self.list)
        return st.alloc(Seq('list', o.pieces[-self.mirror:]))

    def place(self, I, a, kw, st, node):
        args = dict(zip(('debug', 'possible_rooms', 'rooms'), a[1:]))
        args.update(kw)
        self.log.append(('place', args, I.loc(node)))
        self.add_rooms(I, st, 3)
        return NONE

    def caps(self, I, a, kw, st, node):
        args = dict(zip(('debug', 'possible_endcaps'), a[1:]))
        args.update(kw)
        self.log.append(('caps', args, I.loc(node)))
        self.add_rooms(I, st, 2)
        return NONE


def generator(ctx):
    ctx.rule('main of magica_rooms is evaluated for all its options with stand-ins for reading the map, the position manager and the rooms; the order of the steps, what they are given and what is drawn where are compared')

    def go():
        G = Gen(ctx)
        f = G.I.lookup(GEN)
        if f is None or f.op != 'fn':
            raise AnalysisError('no function main')
        loc = f.args[0].loc
        n = 0
        for mirror in (None, 1, 2, 4):
            for ctf in (None, True, False):
                for flavor in (None, ['space_station'], ['maliwan', 'crushed_blacks']):
                    for debug in (None, True, False):
                        for size, seed, rooms in ((None, None, None), (128, 7, 12), (512, 'unknown', '30'), (64, 0, 1)):
                            key = 'mirror %s, ctf %s, flavor %s, debug %s, size %s, seed %s, rooms %s' % (mirror, ctf, flavor, debug, size, seed, rooms)
                            try:
                                bad = whole(G, f, mirror, ctf, flavor, debug, size, seed, rooms)
                                ctx.require(bad is None, key, bad[1] if isinstance(bad, tuple) else loc, '%s [%s]' % (bad[0] if isinstance(bad, tuple) else bad, key))
                                ctx.stat('runs_compared')
                            except (evalt.Unknown, GiveUp) as e:
                                ctx.undecided(key, loc, str(e)[:200])
        return G.I
    return guarded(ctx, 'generator', go)


def whole(G, f, mirror, ctf, flavor, debug, size, seed, rooms):
    I = G.I
    st = I.state()
    G.log.clear()
    G.made = 0
    G.old = st.alloc(Inst(None, {}, where='old'))
    G.mirror = mirror or 2
    G.map = None
    h = st.alloc(Inst(None, {'name': K('/maps/in.mpz')}, where='file'))
    kw = {'mpz_in': h}
    seedv = None if seed is None else (I.sym('seed', 'int') if seed == 'unknown' else K(seed))
    for k, v in (('mirror', mirror), ('size', size), ('rooms', rooms)):
        if v is not None:
            kw[k] = K(v)
    for k, v in (('ctf', ctf), ('debug', debug)):
        if v is not None:
            kw[k] = TRUE if v else FALSE
    if seedv is not None:
        kw['seed'] = seedv
    if flavor is not None:
        kw['flavor'] = st.alloc(Seq('list', tuple(('i', K(x)) for x in flavor)))
    for k in ('mpz_out', 'magica', 'graph'):
        kw[k] = NONE
    r = I.call(f, [], kw, st, None)
    if st.dead:
        return 'the run fails'
    log = G.log
    kinds = [x[0] for x in log]

    def only(k):
        l = [x for x in log if x[0] == k]
        return l[0] if len(l) == 1 else None
    for k, what in (('seed', 'the random numbers are seeded'), ('parse', 'the map is read'), ('upm', 'a position manager is made'), ('register', 'a starting room is registered'),
                    ('place', 'rooms are placed'), ('caps', 'open doors are closed')):
        if only(k) is None:
            return '%s %d times' % (what, kinds.count(k))
    s = only('seed')
    if s[1] is not (K(42) if seedv is None else seedv):
        return 'the random numbers are seeded with %s' % show(s[1]), s[2]
    before = [x for x in log[:log.index(s)] if x[0] in ('dice', 'register', 'place', 'caps', 'render')]
    if before:
        return 'this comes before the random numbers are seeded', before[0][2]
    if not iskt(only('parse')[1], 'str') or kv(only('parse')[1]) != '/maps/in.mpz':
        return 'the map that is read is %s' % show(only('parse')[1]), only('parse')[2]
    fl = [x for x in log if x[0] == 'flavour']
    if flavor is not None and len(fl) != 1:
        return 'the flavours are applied %d times' % len(fl)
    for x in fl:
        if len(x[1]) < 2 or x[1][0] is not G.map or x[1][1] is not kw.get('flavor', NONE):
            return 'the flavours are not those that are given, or are applied to something else', x[2]
    want = K(256 if size is None else size)
    u = only('upm')
    if u[1].get('world_size') is not want or u[1].get('mirror', K(1)) is not K(mirror or 2) or u[1].get('noclip', FALSE) is not FALSE:
        return 'the position manager gets %s' % ', '.join('%s %s' % (k, show(v)) for k, v in sorted(u[1].items())), u[2]
    order = [k for k in kinds if k in ('register', 'place', 'caps', 'render')]
    if [k for k in order if k != 'render'] != ['register', 'place', 'caps']:
        return 'the steps come in the order %s' % ', '.join(k for k in order if k != 'render')
    reg = only('register')
    o = st.obj(reg[1])
    cell = I.lookup('redeclipse.prefabs:STARTING_POSITION')
    east = I.lookup('redeclipse.vector.orientations:EAST')
    if o is None or getattr(o, 'cls', None) is None or G.base not in o.cls.mro:
        return 'what is registered first is no room', reg[2]
    pos, ori = (I.getattr_(reg[1], k, st, None) for k in ('pos', 'orientation'))
    for a, b, what in ((pos, cell, 'position'), (ori, east, 'orientation')):
        if tuple(show(I.getattr_(a, k, st, None)) for k in 'xyz') != tuple(show(I.getattr_(b, k, st, None)) for k in 'xyz'):
            return 'the %s of the starting room is %s' % (what, tuple(show(I.getattr_(a, k, st, None)) for k in 'xyz')), reg[2]
    flags = o.cls.name == 'station_flagroom' or o.cls.name == 'castle_flag_room'
    if flags != bool(ctf):
        return 'the starting room is %s' % o.cls.name, reg[2]
    p = only('place')
    n = int(rooms) if rooms is not None else 200
    if not isnum(p[1].get('rooms', NONE)) or kv(p[1]['rooms']) != n or isinstance(kv(p[1]['rooms']), str):
        return 'the number of rooms to place is %s instead of %d' % (show(p[1].get('rooms', NONE)), n), p[2]
    for x, k, what in ((p, 'possible_rooms', 'rooms'), (only('caps'), 'possible_endcaps', 'caps')):
        l = items(st, x[1].get(k, NONE))
        if not l or not all(q.op == 'cls' and G.base in q.args[0].mro for q in l):
            return 'the possible %s are %s' % (what, show(x[1].get(k, NONE))[:80]), x[2]
        if x[1].get('debug', FALSE) is not (TRUE if debug else FALSE):
            return 'debug is %s when %s are placed' % (show(x[1].get('debug', FALSE)), what), x[2]
    if r.op != 'tup' or len(r.args) != 3:
        return 'the run does not return world, map and position manager'
    v, m, q = r.args
    vo = st.obj(v)
    if vo is None or getattr(vo, 'cls', None) is None or vo.cls.name != 'VoxelWorld' or I.getattr_(v, 'size', st, None) is not want:
        return 'the world that is returned is no voxel world of the given size'
    if m is not G.map or q is not G.manager:
        return 'the map or position manager that is returned is another one'
    drawn = [x[1] for x in log if x[0] == 'render']
    nums = sorted(d[0] for d in drawn)
    if nums != list(range(1, G.made + 1)):
        k = next(i for i in range(1, G.made + 2) if nums.count(i) != 1)
        return 'room %d of %d is drawn %d times' % (k, G.made, nums.count(k))
    if [d[0] for d in drawn] != nums:
        return 'the rooms are not drawn in the order in which they were placed'
    for x in log:
        if x[0] == 'render' and (len(x[1][1]) < 2 or x[1][1][0] is not v or x[1][1][1] is not G.map):
            return 'room %d is drawn into another world or map' % x[1][0], x[2]
    l = items(st, I.getattr_(G.map, 'ents', st, None))
    if l is None:
        raise evalt.Unknown('the entities are not known')
    if not l or l[0] is not G.old:
        return 'the entities of the map that was read are gone'
    suns = [e for e in l[1:] if st.obj(e) is not None and getattr(st.obj(e), 'cls', None) is not None and st.obj(e).cls.name == 'Sunlight']
    if len(suns) != 1 or len(l) != 2:
        return 'the map gets %d suns and %d other entities' % (len(suns), len(l) - 1 - len(suns))
    return None
