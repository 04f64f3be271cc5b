"""MagicaVoxel files: what the writer puts into them and what the reader takes out of them."""
import random as _random
import struct
from .common import *
from .. import evalt
from ..out import GiveUp
from .textures import Luck

WR = 'redeclipse.magicavoxel.writer:to_magicavoxel'
WLOC = 'redeclipse/magicavoxel/writer.py'
RD = 'redeclipse.magicavoxel.reader:Magicavoxel'
RLOC = 'redeclipse/magicavoxel/reader.py'
VW = 'redeclipse.voxel:VoxelWorld'
TX = 'redeclipse.textures:'


def folded(I, a, kw, st, node):
    """struct.pack of known values"""
    fr = [I.freeze(x, st) for x in a]
    if kw or not all(isk(x) for x in fr):
        return None
    try:
        return K(struct.pack(*[int(v) if isinstance(v, Fraction) and v.denominator == 1 else v for v in (kv(x) for x in fr)]))
    except struct.error:
        return I.fail(st, 'struct.error', 'values out of range', node)


def engine_(ctx):
    t = Tape()
    luck = Luck()
    ext = luck.ext()
    c = t.cfg({'ext': ext, 'max_steps': 200000000, 'unroll': 70000, 'unroll_true': 70000})
    c['ext']['struct.pack'] = folded
    packer = c['method']['pack']

    def m_pack(I, base, args, kw, st, node):
        if base.op == 'structfmt':
            return folded(I, [base.args[0]] + list(args), kw, st, node)
        return packer(I, base, args, kw, st, node)
    c['method']['pack'] = m_pack
    I = engine(ctx, c, ('redeclipse', 'redeclipse.voxel', 'redeclipse.objects', 'redeclipse.textures', 'redeclipse.magicavoxel.writer', 'redeclipse.prefabs'))
    I.luck = luck
    return I


def chunks(data):
    """(tag, content) of every chunk of a file and the list of what is wrong with its structure; from the published format"""
    bad = []
    if data[:8] != b'VOX ' + struct.pack('<i', 150):
        return [], ['it does not start with "VOX " and version 150']
    if len(data) < 20 or data[8:12] != b'MAIN':
        return [], ['no MAIN chunk follows the version']
    n, kids = struct.unpack_from('<ii', data, 12)
    if n != 0:
        bad.append('the MAIN chunk says it has %d bytes of its own' % n)
    if kids != len(data) - 20:
        bad.append('the MAIN chunk says its children have %d bytes, but %d follow' % (kids, len(data) - 20))
    at, out = 20, []
    while at < len(data):
        if at + 12 > len(data):
            return out, bad + ['%d bytes follow the last chunk' % (len(data) - at)]
        tag, n, kids = struct.unpack_from('<4sii', data, at)
        if kids:
            bad.append('chunk %r says it has children' % tag)
        if n < 0 or at + 12 + n > len(data):
            return out, bad + ['chunk %r of %d bytes reaches beyond the end of the file (%d bytes are left)' % (tag, n, len(data) - at - 12)]
        out.append((tag, data[at + 12:at + 12 + n]))
        at += 12 + n
    return out, bad


# ---------------------------------------------------------------- the writer
def worlds(tier):
    """name, points with the texture number of the cube"""
    yield 'empty', {}
    yield 'one cube', {(3, 5, 7): 0}
    yield 'one cube at the origin', {(0, 0, 0): 2}
    yield 'highest corner', {(255, 255, 255): 1}
    yield 'a row beyond the limit', {(x, 2, 3): x % 3 for x in range(250, 262)}
    yield 'columns around the limits', {p: i % 4 for i, p in enumerate((a, b, c) for a in (-1, 0, 255, 256) for b in (-1, 0, 255, 256) for c in (-1, 0, 255, 256))}
    yield 'all outside', {(256, 0, 0): 0, (0, -1, 0): 1, (0, 0, 300): 2}
    yield 'far away and near', {(1000, 4, 4): 0, (4, 2000, 4): 1, (4, 4, 3000): 2, (9, 8, 7): 3}
    yield 'every colour', {(i % 16, i // 16, 1): i for i in range(255)}
    yield 'same texture', {(x, y, 0): 4 for x in range(6) for y in range(4)}
    rnd = _random.Random(5)
    for k in range(3 if tier == 'quick' else 30):
        yield 'mixed %d' % k, {tuple(rnd.choice((0, 1, 7, 8, 9, 63, 64, 127, 128, 200, 254, 255, 256, -3)) for _ in range(3)): rnd.randrange(0, min(1 + 12 * k, 255)) for _ in range(40)}
    if tier != 'quick':
        yield 'large', {(x, y, z): (x + y) % 7 for x in range(24) for y in range(24) for z in range(12)}


def palettes(I):
    """managers with colours, in the order of their ids"""
    every = [(i / 255, (255 - i) / 255, (i * 7 % 256) / 255) for i in range(253)]
    yield 'AutomatedMagicaTextureManager', 'plain', every
    yield 'AutomatedMagicaTextureManager', 'simple numbers', [(0, 0, 0), (1, 1, 1), (0.5, 0.1, 0.9), (1, 0, 0), (0.25, 0.75, 0.3), (0.999, 0.001, 0.5)] + every[6:100]
    yield 'AutomatedMagicaTextureManager', 'few', [(0.2, 0.4, 0.6), (1, 0, 0)]


def write(I, st, m, w, how, path):
    """the bytes that are written, or None; location"""
    at = len(st.eff)
    f = I.lookup(WR)
    if f is None or f.op != 'fn':
        raise evalt.Unknown('no function to_magicavoxel')
    if how == 'function':
        h = mk('file', 9000, K(path), K('wb'))
        I.call(f, [w, h, m], {}, st, None)
    else:
        I.call(I.getattr_(w, 'to_magicavoxel', st, None), [K(path)], {}, st, None)
    loc = f.args[0].loc
    if st.dead:
        return None, loc
    out, opened = [], None
    for e in list(st.eff)[at:]:
        if e.kind in ('if', 'loop', 'top', 'try'):
            raise evalt.Unknown('what is written is not known (%s)' % e.kind)
        if e.kind == 'open':
            opened = e.data[0]
        if e.kind == 'write':
            if not iskt(e.data[1], 'bytes'):
                raise evalt.Unknown('bytes %s' % show(e.data[1])[:80])
            out.append(kv(e.data[1]))
    if how != 'function' and (opened is None or opened.args[1] is not K(path) or 'w' not in str(show(opened.args[2])) or 'b' not in str(show(opened.args[2]))):
        raise evalt.Unknown('the file is not opened for writing')
    return b''.join(out), loc


def expected(points):
    return {p: t for p, t in points.items() if all(0 <= c <= 255 for c in p)}


def judge(data, points, colours):
    """what is wrong with a file"""
    cs, bad = chunks(data)
    if bad:
        return bad[0]
    tags = [t for t, _ in cs]
    if sorted(tags) != [b'RGBA', b'SIZE', b'XYZI'] or tags.index(b'SIZE') > tags.index(b'XYZI'):
        return 'its chunks are %s' % b' '.join(tags).decode('latin-1')
    c = dict(cs)
    if len(c[b'SIZE']) != 12:
        return 'the SIZE chunk has %d bytes' % len(c[b'SIZE'])
    size = struct.unpack('<iii', c[b'SIZE'])
    n = struct.unpack_from('<i', c[b'XYZI'])[0] if len(c[b'XYZI']) >= 4 else -1
    if len(c[b'XYZI']) != 4 + 4 * n:
        return 'the XYZI chunk says it has %d voxels, but has %d bytes' % (n, len(c[b'XYZI']))
    got = [struct.unpack_from('BBBB', c[b'XYZI'], 4 + 4 * i) for i in range(n)]
    want = expected(points)
    seen = {}
    for x, y, z, col in got:
        p = (x, y, z)
        if p in seen:
            return 'voxel %s is written twice' % (p,)
        if p not in want:
            return 'voxel %s does not exist in the world' % (p,)
        seen[p] = col
        if col != want[p] + 1:
            return 'voxel %s of texture %d has colour %d' % (p, want[p], col)
        if not all(a < b for a, b in zip(p, size)):
            return 'voxel %s lies outside the size %s' % (p, size)
    for p in want:
        if p not in seen:
            return 'voxel %s is missing' % (p,)
    if not all(1 <= s <= 256 for s in size):
        return 'the size is %s' % (size,)
    pal = c[b'RGBA']
    if len(pal) != 1024:
        return 'the palette has %d bytes instead of 1024' % len(pal)
    for i, rgb in sorted(colours.items()):
        e = pal[4 * i:4 * i + 4]
        if any(abs(b - 255 * v) >= 1 for b, v in zip(e, rgb)) or e[3] != 255:
            return 'palette entry %d is %s, but texture %d has the colour %s' % (i, tuple(e), i, tuple(round(255 * v, 2) for v in rgb))
    return None


def writer(ctx):
    ctx.rule('writing is evaluated on whole worlds; the bytes are taken apart by the published rules of the format and compared with the world and the colours of the texture manager')

    def go():
        I = engine_(ctx)
        pals = list(palettes(I))
        for name, points in worlds(ctx.tier):
            top = max(points.values(), default=0)
            for cls, kind, cols in pals:
                if top > len(cols) + 1 or kind == 'plain' and top <= 90 and len(points) not in (0, 1, 12) or kind == 'few' and len(points) > 40:
                    continue
                for how in ('function', 'method'):
                    if how == 'method' and (kind == 'plain' or name.startswith('mixed')):
                        continue
                    key = '%s, %s, %s' % (name, kind, how)
                    try:
                        st = I.state()
                        if how == 'method':
                            m = texman(I, st)
                        else:
                            m = I.call(I.lookup(TX + cls), [], {}, st, None)
                        ids = []
                        for c in cols:
                            ids.append(I.call(I.getattr_(m, 'get_colour', st, None), [K(v) for v in c], {}, st, None))
                        if st.dead or not all(isnum(i) for i in ids):
                            raise evalt.Unknown('texture ids are not known')
                        by = {int(kv(i)): c for i, c in zip(ids, cols)}
                        w = I.call(I.lookup(VW), [K(512)], {}, st, None)
                        cube = I.lookup('redeclipse.objects:cube.newtexcube')
                        for (x, y, z), t in points.items():
                            cb = I.call(cube, [], {'tex': K(t)}, st, None)
                            I.call(I.getattr_(w, 'set_point', st, None), [K(x), K(y), K(z), cb], {}, st, None)
                        if st.dead:
                            raise evalt.Unknown('the world cannot be built')
                        data, loc = write(I, st, m, w, how, '/out/x.vox')
                        if data is None:
                            ctx.violation(key, loc, 'writing the world (%s) fails: %s' % (name, show(st.dead) if not isinstance(st.dead, bool) else 'exception'))
                            continue
                        bad = judge(data, points, by)
                        ctx.require(bad is None, key, loc, 'the .vox file of the world (%s; %d cubes, %d colours): %s' % (name, len(points), len(cols), bad))
                        ctx.stat('files_taken_apart')
                        ctx.stat('voxels_compared', len(points))
                    except (evalt.Unknown, GiveUp) as e:
                        ctx.undecided(key, WLOC, str(e)[:200])
        return I
    return guarded(ctx, 'writer', go)


def texman(I, st):
    return I.lookup('redeclipse.prefabs:TEXMAN')


# ---------------------------------------------------------------- the reader
class Stream:
    """the reading operations of a byte stream, on known bytes"""
    FMT = {'u1': 'B', 's1': 'b', 'u2le': '<H', 's2le': '<h', 'u4le': '<I', 's4le': '<i', 'u8le': '<Q', 's8le': '<q',
           'u2be': '>H', 's2be': '>h', 'u4be': '>I', 's4be': '>i', 'u8be': '>Q', 's8be': '>q', 'f4le': '<f', 'f4be': '>f'}

    def __init__(self):
        self.data, self.at = b'', 0

    def ext(self):
        e = {'vox read_' + k: self.num(f) for k, f in self.FMT.items()}
        e.update({'vox ensure_fixed_contents': self.fixed, 'vox read_bytes': self.some, 'vox read_bytes_full': self.rest,
                  'vox is_eof': lambda I, a, kw, st, node: K(self.at >= len(self.data)), 'vox pos': lambda I, a, kw, st, node: K(self.at),
                  'vox size': lambda I, a, kw, st, node: K(len(self.data)), 'vox seek': self.seek})
        return e

    def value(self, I, st):
        return st.alloc(Inst(None, {n[4:]: mk('ext', n) for n in self.ext()}, where='stream'))

    def take(self, n, I, st, node):
        d = self.data[self.at:self.at + n]
        if len(d) < n:
            return None
        self.at += n
        return d

    def num(self, f):
        n = struct.calcsize(f)

        def h(I, a, kw, st, node):
            d = self.take(n, I, st, node)
            if d is None:
                return I.fail(st, 'EOFError', 'the file ends', node)
            return K(struct.unpack(f, d)[0])
        return h

    def fixed(self, I, a, kw, st, node):
        if len(a) != 1 or not iskt(I.freeze(a[0], st), 'bytes'):
            return None
        want = kv(I.freeze(a[0], st))
        d = self.take(len(want), I, st, node)
        if d != want:
            return I.fail(st, 'ValueError', 'other contents', node)
        return K(d)

    def some(self, I, a, kw, st, node):
        if len(a) != 1 or not isnum(a[0]):
            return None
        d = self.take(int(kv(a[0])), I, st, node)
        if d is None:
            return I.fail(st, 'EOFError', 'the file ends', node)
        return K(d)

    def rest(self, I, a, kw, st, node):
        d, self.at = self.data[self.at:], len(self.data)
        return K(d)

    def seek(self, I, a, kw, st, node):
        if len(a) != 1 or not isnum(a[0]):
            return None
        self.at = int(kv(a[0]))
        return NONE


def build(size, voxels, palette, own=b'', magic=b'VOX ', version=150, tags=(b'SIZE', b'XYZI', b'RGBA')):
    xyzi = struct.pack('<i', len(voxels)) + b''.join(bytes(v) for v in voxels)
    kids = b''
    for tag, c in zip(tags, (struct.pack('<iii', *size), xyzi, b''.join(bytes(c) for c in palette))):
        kids += tag + struct.pack('<ii', len(c), 0) + c
    return magic + struct.pack('<i', version) + b'MAIN' + struct.pack('<ii', len(own), len(kids)) + own + kids


def samples(tier):
    rnd = _random.Random(9)
    plain = [(i, 255 - i, i * 3 % 256, 255) for i in range(256)]
    yield 'no voxel', (1, 1, 1), [], plain, b''
    yield 'one voxel', (4, 5, 6), [(3, 4, 5, 9)], plain, b''
    yield 'order kept', (8, 8, 8), [(7, 0, 1, 3), (0, 7, 2, 255), (0, 0, 0, 1), (5, 5, 5, 128)], plain, b''
    yield 'more voxels than fit', (2, 1, 1), [(1, 0, 0, 3), (1, 0, 0, 4), (0, 0, 0, 3), (9, 9, 9, 8), (0, 0, 0, 3)], plain, b''
    yield 'high bytes', (256, 256, 256), [(255, 128, 127, 255), (128, 255, 254, 200), (1, 2, 255, 1)], [(255 - i, i ^ 170, 128, i) for i in range(256)], b''
    yield 'the largest numbers', (70000, 300, 65536), [(1, 2, 3, 4)], plain, b''
    yield 'own contents', (3, 3, 3), [(1, 1, 2, 7), (2, 0, 1, 6)], plain, bytes(range(250, 256)) + b'XYZI'
    yield 'many voxels', (40, 20, 1), [(i % 40, i // 40, 0, 1 + i % 255) for i in range(700)], plain, b''
    if tier != 'quick':
        for k in range(8):
            yield 'mixed %d' % k, tuple(rnd.randrange(1, 257) for _ in range(3)), [tuple(rnd.randrange(256) for _ in range(4)) for _ in range(rnd.randrange(1, 400))], \
                [tuple(rnd.randrange(256) for _ in range(4)) for _ in range(256)], bytes(rnd.randrange(256) for _ in range(k))
        yield 'very many voxels', (256, 256, 2), [(i % 256, i // 256, i % 2, 1 + i % 255) for i in range(3500)], plain, b''


def reader(ctx):
    ctx.rule('the reader is evaluated on files built by the published rules of the format; the attributes of the model are compared with the contents')
    ctx.assumption('the stream operations of kaitaistruct (read_u1, read_u4le, ensure_fixed_contents, ...) do what their documentation says')

    def go():
        s = Stream()
        I = engine(ctx, {'ext': {**s.ext(), 'struct.pack': folded}, 'max_steps': 200000000, 'unroll': 70000}, ('redeclipse.magicavoxel.reader',))
        cls = I.lookup(RD)
        if cls is None or cls.op != 'cls':
            raise AnalysisError('no class Magicavoxel')
        loc = '%s:%d' % (cls.args[0].module.rel, cls.args[0].node.lineno)

        def load(data, short=False):
            s.data, s.at = data, 0
            st = I.state()
            if short:
                I.setattr_(cls, 'SIZE', K(255), st, None)
            v = I.call(cls, [s.value(I, st)], {}, st, None)
            return st, v

        def at(st, v, *names):
            for n in names:
                v = I.getattr_(v, n, st, None)
                if st.dead or v is None:
                    raise evalt.Unknown('no attribute %s' % n)
            return v

        def rows(st, v, names):
            l = st.obj(v) if v.op == 'ref' else None
            if l is None or not hasattr(l, 'pieces') and not hasattr(l, 'items'):
                raise evalt.Unknown('not a list')
            out = []
            for p in (l.pieces if hasattr(l, 'pieces') else l.items):
                if p[0] != 'i':
                    raise evalt.Unknown('not a known list')
                out.append(tuple(number(at(st, p[1], n)) for n in names))
            return out

        for name, size, vox, pal, own in samples(ctx.tier):
            for short in (False, True):
                key = name + (', palette of 255' if short else '')
                p = pal[:255] if short else pal
                try:
                    st, v = load(build(size, vox, p, own), short)
                    if st.dead:
                        ctx.violation(key, loc, 'reading a file (%s) fails' % key)
                        continue
                    got = tuple(number(at(st, v, 'model_size', c)) for c in 'xyz')
                    ctx.require(got == size, key + ': size', loc, 'size %s is read as %s (%s)' % (size, got, key))
                    n = number(at(st, v, 'model_voxels', 'num_voxels'))
                    got = rows(st, at(st, v, 'model_voxels', 'voxels'), 'xyzc')
                    ctx.require(got == vox and n == len(vox), key + ': voxels', loc, 'voxels %s (%d) are read as %s (%s)' % (diff(vox, got)[0], len(vox), diff(vox, got)[1], key))
                    got = rows(st, at(st, v, 'palette', 'colours'), 'rgba')
                    ctx.require(got == p, key + ': palette', loc, 'colours %s are read as %s (%s)' % (diff(p, got) + (key,)))
                    ctx.stat('files_read')
                    ctx.stat('voxels_compared', len(vox))
                except (evalt.Unknown, GiveUp) as e:
                    ctx.undecided(key, RLOC, str(e)[:200])
        ok = ((2, 2, 2), [(1, 1, 1, 3)], [(i, i, i, 255) for i in range(256)])
        wrong = [('another kind of file', dict(magic=b'VOX!')), ('a file without a palette chunk', dict(tags=(b'SIZE', b'XYZI', b'MATT'))), ('a file without a size chunk', dict(tags=(b'PACK', b'XYZI', b'RGBA')))]
        for name, kw in wrong:
            try:
                st, v = load(build(*ok, **kw))
                ctx.require(bool(st.dead), name, loc, '%s is read without complaint' % name)
                ctx.stat('files_refused')
            except (evalt.Unknown, GiveUp) as e:
                ctx.undecided(name, RLOC, str(e)[:200])
        whole = build(*ok)
        for cut in range(0, len(whole), 7 if ctx.tier == 'quick' else 1):
            try:
                st, v = load(whole[:cut])
                if not st.dead:
                    ctx.violation('cut off', loc, 'a file that ends after %d of %d bytes is read without complaint' % (cut, len(whole)))
                    break
                ctx.stat('files_refused')
            except (evalt.Unknown, GiveUp) as e:
                ctx.undecided('cut off after %d' % cut, RLOC, str(e)[:200])
        ctx.ok('cut off')
        return I
    return guarded(ctx, 'reader', go)


def number(v):
    if not isnum(v):
        raise evalt.Unknown('a number is not known: %s' % show(v)[:60])
    return int(kv(v))


def diff(a, b):
    for x, y in zip(a, b):
        if x != y:
            return x, y
    return len(a), len(b)


# ---------------------------------------------------------------- the tool that shows models
INFO = 'redeclipse.cli.magicavoxel_info'
ILOC = 'redeclipse/cli/magicavoxel_info.py'


def picture(name, voxels, palette):
    """the lines that the tool has to print"""
    pts = {v[:3] for v in voxels}
    lo, hi = [min(p[i] for p in pts) for i in range(3)], [max(p[i] for p in pts) for i in range(3)]
    out = ['Model: ' + name, 'Model boundaries: x in [%d, %d]; y in [%d, %d]; z in [%d, %d]' % (lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]), 'Pallette']
    out += ['C[%d] = (%d, %d, %d)' % ((i,) + c[:3]) for i, c in enumerate(palette) if any(c[:3])]
    for z in range(lo[2], hi[2] + 1):
        out += ['==== z = %d ====' % z, '0-xxxxxxxx+', '-']
        out += ['y ' + ''.join('#' if (x, y, z) in pts else ' ' for y in range(lo[1], hi[1] + 1)) for x in range(lo[0], hi[0] + 1)]
        out.append('+')
    return [l.rstrip() for l in out]


def info(ctx):
    ctx.rule('the tool is evaluated on models built by the published rules of the format; the text that it prints is compared line by line with the contents')
    ctx.assumption('the stream operations of kaitaistruct do what their documentation says')
    dim = [(0, 0, 0, 255) if i % 3 else (i, 0, 255 - i, 255) for i in range(256)]
    cases = [('house', '/models/house.vox', [(1, 2, 3, 4), (1, 2, 4, 4), (3, 2, 3, 9), (2, 5, 4, 1)], dim),
             ('one.two', 'one.two.vox', [(0, 0, 0, 1)], [(0, 0, 0, 0)] * 255 + [(0, 1, 0, 255)]),
             ('tower', 'a/b/tower.vox', [(7, 0, z, 3) for z in range(9)] + [(0, 7, 8, 200), (7, 0, 0, 5)], dim),
             ('short', './short.vox', [(5, 6, 7, 8), (6, 6, 7, 8), (5, 0, 6, 3)], dim[:255])]

    def go():
        s = Stream()
        said = []

        def say(I, a, kw, st, node):
            if kw.get('file') is None or 'stdout' in show(kw['file']):
                sep, end = (kv(kw[k]) if k in kw and iskt(kw[k], 'str') else d for k, d in (('sep', ' '), ('end', '\n')))
                said.append(sep.join(text(I, x, st, node) for x in a) + end)
            return NONE

        def put(I, a, kw, st, node):
            said.append(text(I, a[0], st, node))
            return NONE

        def text(I, x, st, node):
            if not iskt(x, 'str'):
                x = I.freeze(I.call(mk('ext', 'str'), [x], {}, st, node), st)
            if not iskt(x, 'str'):
                raise GiveUp('a text that is not known: %s' % show(x)[:80])
            return kv(x)
        cell = {}

        def load(I, a, kw, st, node):
            if a[-1] is not K(cell['path']):
                raise GiveUp('another file is read: %s' % show(a[-1])[:60])
            s.at = 0
            return I.call(cell['cls'], [s.value(I, st)], {}, st, node)
        I = engine(ctx, {'ext': {**s.ext(), 'struct.pack': folded, 'print': say, 'sys.stdout.write': put, 'info write': put}, 'intrinsics': {RD + '.from_file': load}, 'max_steps': 50000000, 'unroll': 70000}, ('redeclipse.magicavoxel.reader', INFO))
        cell['cls'] = I.lookup(RD)
        for name, path, vox, pal in cases:
            cell['path'] = path
            s.data = build((16, 16, 16), vox, pal)
            said.clear()
            st = I.state()
            try:
                I.call(I.lookup(INFO + ':main'), [K(path)], {}, st, None)
            except (GiveUp, evalt.Unknown) as e:
                ctx.undecided(name, ILOC, str(e)[:200])
                continue
            if st.dead:
                ctx.violation(name, ILOC, 'showing the model %s fails' % path)
                continue
            got, want = [l.rstrip() for l in ''.join(said).split('\n')], picture(name, vox, pal)
            while got and not got[-1]:
                got.pop()
            k = next((i for i, (g, w) in enumerate(zip(got, want)) if g != w), min(len(got), len(want)))
            ctx.stat('lines_compared', len(want))
            ctx.require(got == want, name, ILOC, 'line %d for the model %s is %r instead of %r' % (k + 1, path, got[k] if k < len(got) else None, want[k] if k < len(want) else None))
        return I
    return guarded(ctx, 'info', go)
