"""Textures: ids, the map config, themes and image files."""
import colorsys
import os
import shlex
from fractions import Fraction
from .common import *
from .. import evalt

TEX = 'redeclipse.textures:'
COLOUR = 'redeclipse.textures.basetex:SimpleColourTex'
IMAGES = 'cnszg'
CATEGORIES = {'generic': 'GenericMaterial', 'column': 'ColumnMaterial', 'floor': 'FloorMaterial', 'wall': 'WallMaterial', 'accent': 'AccentMaterial'}


class Luck:
    """random numbers that follow a script of values in [0, 1)"""
    def __init__(self):
        self.script = []
        self.asked = []

    def take(self):
        return self.script.pop(0) if self.script else Fraction(0)

    def ext(self):
        return {'random.choice': self.choice, 'random.randint': self.randint, 'random.randrange': self.randrange, 'random.random': self.random, 'random.uniform': self.uniform,
                'colorsys.hsv_to_rgb': self.hsv('hsv_to_rgb'), 'colorsys.rgb_to_hsv': self.hsv('rgb_to_hsv')}

    def choice(self, I, a, kw, st, node):
        o = st.obj(a[0])
        ps = [p[1] for p in o.pieces] if isinstance(o, Seq) and all(p[0] == 'i' for p in o.pieces) else (list(a[0].args) if a[0].op == 'tup' else None)
        if not ps:
            return None
        self.asked.append(len(ps))
        return ps[int(self.take() * len(ps))]

    def randint(self, I, a, kw, st, node):
        if len(a) != 2 or not all(isnum(x) for x in a):
            return None
        n = int(kv(a[1]) - kv(a[0]) + 1)
        self.asked.append(n)
        return K(int(kv(a[0])) + int(self.take() * n))

    def randrange(self, I, a, kw, st, node):
        if not a or len(a) > 2 or not all(isnum(x) for x in a):
            return None
        lo, hi = (0, int(kv(a[0]))) if len(a) == 1 else (int(kv(a[0])), int(kv(a[1])))
        self.asked.append(hi - lo)
        return K(lo + int(self.take() * (hi - lo)))

    def random(self, I, a, kw, st, node):
        self.asked.append(0)
        return K(float(self.take()))

    def uniform(self, I, a, kw, st, node):
        if not all(isnum(x) for x in a):
            return None
        self.asked.append(0)
        return K(float(kv(a[0]) + (kv(a[1]) - kv(a[0])) * self.take()))

    @staticmethod
    def hsv(f):
        def go(I, a, kw, st, node):
            if len(a) != 3 or not all(isnum(x) for x in a):
                return None
            try:
                return mk('tup', *[K(x) for x in getattr(colorsys, f)(*[float(kv(x)) for x in a])])
            except Exception as e:
                return I.fail(st, type(e).__name__, str(e), node)
        return go


class Textures:
    def __init__(self, ctx):
        self.ctx = ctx
        self.luck = Luck()
        self.copied = []
        ext = self.luck.ext()
        ext.update({'shutil.copy': self.copy, 'shutil.copyfile': self.copy, 'shutil.copy2': self.copy, 'os.path.exists': self.exists, 'os.path.isdir': self.exists,
                    'os.makedirs': lambda I, a, kw, st, node: NONE, 'os.mkdir': lambda I, a, kw, st, node: NONE, 'os.path.realpath': lambda I, a, kw, st, node: a[0],
                    'os.path.abspath': lambda I, a, kw, st, node: a[0]})
        self.I = engine(ctx, Tape().cfg({'ext': ext, 'max_steps': 100000000, 'unroll': 1000}), ('redeclipse', 'redeclipse.textures'))
        self.st = self.I.state()

    def copy(self, I, a, kw, st, node):
        self.copied.append((a[0], a[1], I.loc(node)))
        return NONE

    def exists(self, I, a, kw, st, node):
        return FALSE

    # -- inventory
    def managers(self):
        """the texture managers that can be used"""
        I = self.I
        m = I.p.modules['redeclipse.textures']
        ns = I.load_state.obj(Ref(m.oid))
        base = I.lookup(TEX + 'TextureManager').args[0]
        out = []
        for k, v in ns.fields.items():
            if v.op == 'cls' and base in v.args[0].mro and v.args[0].module is m:
                ci = v.args[0]
                if any(c.name == 'ThemedTextureManager' for c in ci.mro) and I.getattr_(v, 'theme', I.state(), None, quiet=True) is None:
                    continue
                out.append(ci)
        return out

    def new(self, ci, st=None):
        self.st = st or self.I.state()
        return self.I.call(mk('cls', ci), [], {}, self.st, None)

    def names(self, m):
        """the textures a manager knows, by name"""
        t = self.st.obj(self.I.getattr_(m, 'texref', self.st, None))
        if not isinstance(t, Dic) or not all(p[0] == 'i' and iskt(p[1][0], 'str') for p in t.pieces):
            raise evalt.Unknown('the textures of the manager are not known')
        return {kv(p[1][0]): p[1][1] for p in t.pieces}

    def ask(self, m, name, *args):
        f = self.I.getattr_(m, name, self.st, None)
        loc = f.args[1].args[0].loc if f.op == 'bm' else '-'
        return self.I.call(f, [K(a) for a in args], {}, self.st, None), loc

    def attr(self, t, k):
        v = self.I.getattr_(t, k, self.st, None, quiet=True)
        return None if v is None or v is NONE else v

    def images(self, t):
        """image paths of a texture by type and its colour, None for textures of the game itself"""
        o = self.st.obj(t)
        mro = [c.qual for c in o.cls.mro] if isinstance(o, Inst) and o.cls is not None else []
        base = self.attr(t, 'basepath')
        if COLOUR in mro:
            return {'c': kv(base) + '/empty.png'}, tuple(num(self.attr(t, k)) for k in 'rgb')
        out = {}
        for k in IMAGES:
            v = self.attr(t, k)
            if v is not None and iskt(v, 'str'):
                out[k] = kv(base) + '/' + kv(v)
        col = self.attr(t, 'texcolor')
        if o.cls.name in ('Sky', 'Default'):
            return {'c': 'textures/%s.png' % o.cls.name.lower()}, None
        if col is not None and col.op != 'tup':
            raise evalt.Unknown('colour of %s' % o.cls.name)
        return out, tuple(num(x) for x in col.args) if col is not None else None

    def emitted(self, m):
        """(opened path, text) that emit_conf writes"""
        I, st = self.I, self.st
        at = len(st.eff)
        out = st.alloc(Inst(None, {'name': K('some.mpz.d/map.mpz')}, where='output'))
        f = I.getattr_(m, 'emit_conf', st, None)
        I.call(f, [out], {}, st, None)
        if st.dead:
            return None, None, f.args[1].args[0].loc
        text, path = [], None
        for e in list(st.eff)[at:]:
            if e.kind in ('if', 'loop', 'top', 'try'):
                raise evalt.Unknown('what is written is not known (%s)' % e.kind)
            if e.kind == 'open':
                path = e.data[0]
            if e.kind == 'write':
                if not iskt(e.data[1], 'str'):
                    raise evalt.Unknown('text %s' % show(e.data[1])[:80])
                text.append(kv(e.data[1]))
        return path, ''.join(text), f.args[1].args[0].loc


def num(v):
    if v is None or not isnum(v):
        raise evalt.Unknown('a number is not known')
    return float(kv(v))


def where(ci):
    return '%s:%d' % (ci.module.rel, ci.node.lineno)


def statements(text):
    """the statements of a config: lists of words"""
    out = []
    for ln in text.split('\n'):
        at = quoted = 0
        for i, ch in enumerate(ln):
            if ch == '"':
                quoted ^= 1
            if ln[i:i + 2] == '//' and not quoted:
                ln = ln[:i]
                break
        w = shlex.split(ln)
        if w:
            out.append((w, ln))
    return out


def is_number(w):
    try:
        float(w)
        return True
    except ValueError:
        return False


def slots(text):
    """the texture slots that a config defines: (images, colour, problem)"""
    out, problem, shader = [], None, 0
    for w, ln in statements(text):
        if w[0] == 'texture':
            if len(w) < 3 or not all(is_number(x) for x in w[3:]):
                problem = 'malformed line %s' % ln
            elif w[1] in ('c', '0'):
                out.append([{'c': w[2]}, None])
            elif not out or w[1] in out[-1][0]:
                problem = '%s comes before the slot it belongs to' % ln
            else:
                out[-1][0][w[1]] = w[2]
        elif w[0] == 'texcolor':
            if len(w) != 4 or not all(is_number(x) for x in w[1:]):
                problem = 'malformed line %s' % ln
            elif not out or out[-1][1] is not None:
                problem = '%s does not follow a texture' % ln
            else:
                out[-1][1] = tuple(float(x) for x in w[1:])
        elif w[0] == 'setshader':
            if len(w) != 2:
                problem = 'malformed line %s' % ln
        elif w[0] == 'setshaderparam':
            if len(w) != 6 or not all(is_number(x) for x in w[2:]):
                problem = 'malformed line %s' % ln
        elif w[0] in ('texscroll', 'texscale', 'texalpha', 'texrotate', 'texoffset', 'texlayer', 'autograss', 'texglow', 'texspec'):
            pass
        else:
            raise evalt.Unknown('statement %s' % ln)
    return out, problem


def close(a, b):
    return a == b or a is not None and b is not None and len(a) == len(b) and all(abs(x - y) < 1e-6 for x, y in zip(a, b))


# ---------------------------------------------------------------- ids
COLOURS = [(1, 0, 1), (0.5, 0.25, 0), (0, 0, 0), (0.5, 0.25, 0), (0.2, 0.21, 0.3), (0.2, 0.2, 0.3), (0.3, 0.21, 0.2), (1, 0, 0.5)]
COLOURS += [(a, b, c) for e in (0.02, 2e-3, 2e-4, 2e-5) for a, b, c in ((1 / 3 + e, 0.5, 0), (1 / 3, 0.5 + e, 0), (1 / 3, 0.5, e))]
COLOURS += [(i / 255, 0, 0) for i in range(0, 256, 5)] + [(0, 0, i / 255) for i in range(17)] + [(0.1234567, 0.7, 0.7), (0.1234568, 0.7, 0.7), (0, 0.25, 0.5), (1, 0, 1)]


def ids(ctx):
    ctx.rule('every texture manager is evaluated on sequences of requests by name, colour and category (names in several orders, repeated, unknown); ids are compared with the slots of the config that emit_conf writes afterwards')
    ctx.assumption('the game numbers textures in the order of their "texture c" lines')

    def go():
        R = Textures(ctx)
        for ci in R.managers():
            for part in (by_name, by_colour, by_category, apart):
                key = '%s %s' % (ci.name, part.__name__)
                try:
                    part(ctx, R, ci, key)
                except evalt.Unknown as e:
                    ctx.undecided(key, where(ci), str(e)[:200])
        return R.I
    return guarded(ctx, 'textures', go)


class Ids:
    """the ids handed out by a manager and what they stand for"""
    def __init__(self, R, ci, m, key):
        self.R, self.ci, self.m, self.key = R, ci, m, key
        self.known = {}
        self.want = [({'c': 'textures/sky.png'}, None), ({'c': 'textures/default.png'}, None)]

    def note(self, v, loc, what, slot):
        """check one answer; slot: what the id stands for"""
        ctx, R = self.R.ctx, self.R
        if R.st.dead:
            ctx.violation(self.key, loc, '%s: asking for %s fails: %s' % (self.ci.name, what, show(R.st.dead) if isinstance(R.st.dead, T) else R.st.dead))
            return False
        if not iskt(v, 'int'):
            if isk(v):
                ctx.violation(self.key, loc, '%s: asking for %s yields %s, which is no id' % (self.ci.name, what, show(v)))
                return False
            raise evalt.Unknown('id %s' % show(v)[:80])
        v = kv(v)
        if what in self.known and self.known[what] != v:
            ctx.violation(self.key, loc, '%s: the id of %s changes from %s to %s' % (self.ci.name, what, self.known[what], v))
            return False
        if what not in self.known:
            if v == len(self.want):
                self.want.append(slot)
            elif not 0 <= v < len(self.want):
                ctx.violation(self.key, loc, '%s: the id of %s is %s, though %d textures are known' % (self.ci.name, what, v, len(self.want)))
                return False
            elif slot is not None and (self.want[v] is not None and (self.want[v][0] != slot[0] or not close(self.want[v][1], slot[1]))):
                ctx.violation(self.key, loc, '%s: %s has the id %s of another texture, %s' % (self.ci.name, what, v, self.want[v]))
                return False
        self.known[what] = v
        ctx.stat('requests')
        return True

    def config(self):
        ctx, R = self.R.ctx, self.R
        path, text, loc = R.emitted(self.m)
        if text is None:
            ctx.violation(self.key, loc, '%s: writing the config fails' % self.ci.name)
            return False
        got, problem = slots(text)
        if problem:
            ctx.violation(self.key, loc, '%s: the config has a %s' % (self.ci.name, problem))
            return False
        p = path.args[1] if path is not None and path.op == 'file' else None
        if p is not None and isk(p) and kv(p) != 'some.mpz.d/map.mpz'[:-4] + '.cfg' and kv(p) != 'some.cfg.d/map.cfg':
            ctx.violation(self.key, loc, '%s: the config of map.mpz is written to %s' % (self.ci.name, kv(p)))
            return False
        for i, w in enumerate(self.want):
            if i >= len(got):
                ctx.violation(self.key, loc, '%s: the texture with id %d is missing from the config' % (self.ci.name, i))
                return False
            if w is not None and (got[i][0] != w[0] or not close(got[i][1], w[1])):
                ctx.violation(self.key, loc, '%s: slot %d of the config is %s, but the texture with this id is %s' % (self.ci.name, i, got[i][0].get('c') if got[i][0] != w[0] else 'coloured %s' % (got[i][1],), w[0].get('c') if got[i][0] != w[0] else w[1]))
                return False
        if len(got) > len(self.want):
            ctx.violation(self.key, loc, '%s: the config has %d slots, but %d ids are used' % (self.ci.name, len(got), len(self.want)))
            return False
        ctx.stat('slots_compared', len(got))
        return True


def by_name(ctx, R, ci, key):
    m = R.new(ci)
    names = R.names(m)
    usable = [n for n in sorted(names) if R.images(names[n])[0].get('c')]
    for order, l in enumerate((usable, usable[::-1], usable[1::2] + usable[::2])):
        m = R.new(ci)
        names = R.names(m)
        s = Ids(R, ci, m, '%s (%d)' % (key, order))
        for n, v in (('sky', 0), ('default', 1)):
            if n in names and not s.note(*R.ask(m, 'get', n), n, R.images(names[n])):
                return
            if s.known.get(n) != v:
                ctx.violation(s.key, where(ci), '%s: the id of %s is %s' % (ci.name, n, s.known.get(n)))
                return
        for i, n in enumerate(l):
            for k in dict.fromkeys((n, l[i // 2], n)):
                if not s.note(*R.ask(m, 'get', k), k, R.images(names[k])):
                    return
        if len(l) > 1 and len(set(s.known.values())) != len(s.known):
            ctx.violation(s.key, where(ci), '%s: two names have the same id' % ci.name)
            return
        # an unknown name
        before = R.st
        v, loc = R.ask(m, 'get', 'no such texture')
        if not R.st.dead:
            ctx.violation(s.key, loc, '%s: an unknown texture has the id %s' % (ci.name, show(v)))
            return
        R.st.dead = None
        if s.config():
            ctx.ok(s.key)


def by_colour(ctx, R, ci, key):
    m = R.new(ci)
    if R.I.find_method(m, 'get_colour', R.st) is None or ci.name.startswith('Rainbow'):
        return
    s = Ids(R, ci, m, key)
    path = kv(R.I.getattr_(R.I.lookup(COLOUR), 'basepath', R.st, None)) + '/empty.png'
    for c in COLOURS + COLOURS[3:9]:
        if not s.note(*R.ask(m, 'get_colour', *c), 'the colour %s' % (c,), ({'c': path}, c)):
            return
    if s.config():
        ctx.ok(key)


def by_category(ctx, R, ci, key):
    m = R.new(ci)
    if R.I.find_method(m, 'get_c', R.st) is None:
        return
    s = Ids(R, ci, m, key)
    n = 0
    for u in (Fraction(0), Fraction(1, 3), Fraction(2, 3), Fraction(99, 100), Fraction(0), Fraction(1, 3)):
        for c in list(CATEGORIES) + ['something else']:
            R.luck.script = [u]
            n += 1
            if not s.note(*R.ask(m, 'get_c', c), (c, u) if n < 0 else '%s at %s' % (c, float(u)), None):
                return
    if s.config():
        ctx.ok(key)


def apart(ctx, R, ci, key):
    """managers do not share their textures"""
    a = R.new(ci)
    st = R.st
    s = Ids(R, ci, a, key)
    names = [n for n in sorted(R.names(a)) if n not in ('sky', 'default') and R.images(R.names(a)[n])[0].get('c')]
    for n in names[:2]:
        R.ask(a, 'get', n)
    if R.I.find_method(a, 'get_colour', st) is not None:
        R.ask(a, 'get_colour', 0.5, 0.5, 0.25)
    b = R.new(ci, st)
    t = Ids(R, ci, b, key)
    if st.dead:
        ctx.violation(key, where(ci), '%s: a second manager cannot be created' % ci.name)
        return
    if not t.config():
        return
    # two managers used in turns
    names = [n for n in sorted(R.names(b)) if n not in ('sky', 'default') and R.images(R.names(b)[n])[0].get('c')]
    a = R.new(ci, R.I.state())
    st = R.st
    b = R.new(ci, st)
    both = [(Ids(R, ci, a, key), names[:6]), (Ids(R, ci, b, key), names[4:9][::-1])]
    for i in range(6):
        for s, l in both:
            if i < len(l) and not s.note(*R.ask(s.m, 'get', l[i]), l[i], R.images(R.names(s.m)[l[i]])):
                return
            if R.I.find_method(s.m, 'get_colour', st) is not None and not ci.name.startswith('Rainbow'):
                c = ((i + (s.m is b)) / 8, 0.5, 0.25)
                if not s.note(*R.ask(s.m, 'get_colour', *c), 'the colour %s' % (c,), ({'c': kv(R.I.getattr_(R.I.lookup(COLOUR), 'basepath', st, None)) + '/empty.png'}, c)):
                    return
    for s, l in both:
        for n in l:
            if not s.note(*R.ask(s.m, 'get', n), n, None):
                return
        if not s.config():
            return
    own = set(R.names(R.new(ci)))
    for cj in R.managers():
        st = R.I.state()
        a = R.new(cj, st)
        for n in sorted(R.names(a)):
            if R.images(R.names(a)[n])[0].get('c'):
                R.ask(a, 'get', n)
        if R.I.find_method(a, 'get_colour', st) is not None:
            R.ask(a, 'get_colour', 0.5, 0.5, 0.25)
        b = R.new(ci, st)
        if st.dead:
            raise evalt.Unknown('creating two managers')
        more = sorted(set(R.names(b)) ^ own)
        if more:
            v, loc = R.ask(b, 'get', more[0])
            if not st.dead:
                ctx.violation(key, loc, '%s knows the texture %s once a %s was asked for it' % (ci.name, more[0], cj.name))
                return
    ctx.ok(key)


# ---------------------------------------------------------------- texts
def texts(ctx):
    ctx.rule('the config text of every texture class of the package that names an image is evaluated; its statements are compared with the images and the colour of the class')
    ctx.assumption('the config language: one statement per line, // starts a comment; a texture line of type c starts a slot, further images and the colour follow it')

    def go():
        R = Textures(ctx)
        for ci in texture_classes(R):
            key = 'texture ' + ci.qual.split('.')[-1]
            try:
                text_one(ctx, R, ci, key)
            except evalt.Unknown as e:
                ctx.undecided(key, where(ci), str(e)[:200])
        for ci, more in kinds(R):
            key = 'textures of kind %s with %s' % (ci.name, ', '.join(more))
            try:
                text_one(ctx, R, ci, key, more)
            except evalt.Unknown as e:
                ctx.undecided(key, where(ci), str(e)[:200])
        return R.I
    return guarded(ctx, 'textures', go)


PARAMS = ('specscale', 'glowcolor', 'parallaxscale')


def kinds(R):
    """the classes that textures extend (they declare images but name none), with every choice of what a texture may leave out"""
    I = R.I
    m = I.p.modules['redeclipse.textures.basetex']
    for k, v in I.load_state.obj(Ref(m.oid)).fields.items():
        if v.op != 'cls' or v.args[0].module is not m:
            continue
        st = I.state()
        if I.getattr_(v, 'c', st, None, quiet=True) is not NONE:
            continue
        have = [n for n in ('z', 'texcolor') + PARAMS if I.getattr_(v, n, st, None, quiet=True) is NONE]
        need = {n: K('dir/%s image.png' % n) for n in IMAGES if n != 'z' and I.getattr_(v, n, st, None, quiet=True) is NONE}
        if I.getattr_(v, 'scale', st, None, quiet=True) is None:
            need['scale'] = K(2)
        for k in range(2 ** len(have)):
            more = dict(need)
            for i, n in enumerate(have):
                if k >> i & 1:
                    more[n] = K('depth.png') if n == 'z' else mk('tup', *[K(x / 8 + i / 64) for x in range(1, 4 if n == 'texcolor' else 5)])
            yield v.args[0], more


def texture_classes(R):
    I = R.I
    for n in sorted(I.p.modules):
        if n.startswith('redeclipse.textures.'):
            I.load(n)
    base = I.lookup('redeclipse.textures.basetex:BaseTex').args[0]
    out = []
    for n in sorted(I.p.modules):
        if not n.startswith('redeclipse.textures.'):
            continue
        m = I.p.modules[n]
        for k, v in I.load_state.obj(Ref(m.oid)).fields.items():
            if v.op == 'cls' and v.args[0].module is m and base in v.args[0].mro:
                R.st = st = I.state()
                t = I.call(v, [], {}, st, None)
                if not st.dead and R.images(t)[0].get('c'):
                    out.append(v.args[0])
    return out


def text_one(ctx, R, ci, key, more={}):
    I = R.I
    for idx in (0, 7, 300):
        R.st = st = I.state()
        t = I.call(mk('cls', ci), [], {}, st, None)
        for n, x in more.items():
            I.setattr_(t, n, x, st, None)
        images, colour = R.images(t)
        f = I.getattr_(t, 'conf', st, None)
        loc = f.args[1].args[0].loc
        v = I.call(f, [], {'idx': K(idx)}, st, None)
        if st.dead:
            ctx.violation(key, loc, 'the config of %s cannot be written: %s' % (ci.name, show(st.dead) if isinstance(st.dead, T) else st.dead))
            return
        if not iskt(v, 'str'):
            raise evalt.Unknown('text %s' % show(v)[:80])
        text = kv(v)
        got, problem = slots(text)
        if problem:
            ctx.violation(key, loc, '%s: %s' % (ci.name, problem))
            return
        if len(got) != 1:
            ctx.violation(key, loc, '%s defines %d slots' % (ci.name, len(got)))
            return
        if got[0][0] != images:
            k = sorted(set(images.items()) ^ set(got[0][0].items()))[0][0]
            ctx.violation(key, loc, '%s: the image of type %s is %s instead of %s' % (ci.name, k, got[0][0].get(k), images.get(k)))
            return
        if not close(got[0][1], colour):
            ctx.violation(key, loc, '%s has the colour %s in the config, not %s' % (ci.name, got[0][1], colour))
            return
        given = {w[1]: tuple(float(x) for x in w[2:]) for w, _ in statements(text) if w[0] == 'setshaderparam'}
        for n in PARAMS:
            x = more.get(n)
            if x is not None and not close(given.get(n), tuple(num(y) for y in x.args)):
                ctx.violation(key, loc, '%s has the shader parameter %s, the config says %s' % (ci.name, n, given.get(n)))
                return
        if not text.endswith('\n'):
            ctx.violation(key, loc, '%s: the last line of the config is not ended, the next texture continues it' % ci.name)
            return
        ctx.stat('statements', len(statements(text)))
    ctx.ok(key)


# ---------------------------------------------------------------- themes
def themes(ctx):
    ctx.rule('get_c of every themed manager is evaluated for all outcomes of the random choice and every category; the texture it yields is compared with the names listed in the theme')
    ctx.assumption('random.choice takes each element of a list with the same probability')

    def go():
        R = Textures(ctx)
        for ci in R.managers():
            key = ci.name
            try:
                theme_one(ctx, R, ci)
            except evalt.Unknown as e:
                ctx.undecided(key, where(ci), str(e)[:200])
        return R.I
    return guarded(ctx, 'textures', go)


def theme_one(ctx, R, ci):
    I = R.I
    m = R.new(ci)
    if I.find_method(m, 'get_c', R.st) is None:
        return
    th = I.getattr_(m, 'theme', R.st, None, quiet=True)
    for c in list(CATEGORIES) + ['roof']:
        key = '%s %s' % (ci.name, c)
        if th is None:
            plain_category(ctx, R, ci, c, key)
            continue
        l = I.getattr_(th, CATEGORIES.get(c, 'GenericMaterial'), R.I.state(), None)
        names = [kv(p[1]) for p in R.I.load_state.obj(l).pieces] if l.op == 'ref' and all(p[0] == 'i' for p in R.I.load_state.obj(l).pieces) else None
        if names is None:
            raise evalt.Unknown('the list of the theme is not known')
        good = True
        for i, n in enumerate(names):
            m = R.new(ci)
            know = R.names(m)
            if n not in know:
                ctx.violation(key, '%s' % I.p.modules[th.args[0]].rel if th.op == 'mod' else where(ci), 'the theme of %s lists %s for %s, which is no texture' % (ci.name, n, c))
                good = False
                break
            R.luck.script, R.luck.asked = [Fraction(2 * i + 1, 2 * len(names))], []
            v, loc = R.ask(m, 'get_c', c)
            if R.st.dead:
                ctx.violation(key, loc, '%s: choosing %s for %s fails: %s' % (ci.name, n, c, show(R.st.dead) if isinstance(R.st.dead, T) else R.st.dead))
                good = False
                break
            if not R.luck.asked and iskt(v, 'int') and len(set(names)) > 1:
                ctx.violation(key, loc, '%s yields the id %s for %s without a random choice, the theme lists %d textures' % (ci.name, show(v), c, len(names)))
                good = False
                break
            if R.luck.asked != [len(names)]:
                if R.luck.asked and R.luck.asked[0] and len(R.luck.asked) == 1:
                    ctx.violation(key, loc, '%s chooses from %s textures for %s, the theme lists %d' % (ci.name, R.luck.asked[0], c, len(names)))
                    good = False
                    break
                raise evalt.Unknown('more than one random number')
            w, _ = R.ask(m, 'get', n)
            if v is not w or not iskt(v, 'int'):
                ctx.violation(key, loc, '%s: %s for %s yields %s instead of its id' % (ci.name, n, c, show(v)))
                good = False
                break
            ctx.stat('choices_compared')
        if good:
            ctx.ok(key)


def plain_category(ctx, R, ci, c, key):
    """managers of plain colours: an id of a colour between 0 and 1, for every outcome"""
    seen = set()
    for i in range(66):
        m = R.new(ci)
        R.luck.script, R.luck.asked = [Fraction(2 * i + 1, 132)], []
        v, loc = R.ask(m, 'get_c', c)
        if R.st.dead or not isk(v):
            if R.st.dead:
                ctx.violation(key, loc, '%s: asking for %s fails' % (ci.name, c))
                return
            raise evalt.Unknown('id %s' % show(v)[:60])
        path, text, _ = R.emitted(m)
        got, problem = slots(text)
        col = got[kv(v)][1] if iskt(v, 'int') and 0 <= kv(v) < len(got) else None
        if col is None or not all(0 <= x <= 1 for x in col):
            ctx.violation(key, loc, '%s: %s yields %s, which is no texture with a colour between 0 and 1 (%s)' % (ci.name, c, show(v), col))
            return
        seen.add(col)
        if not R.luck.asked:
            break
    ctx.ok(key)


# ---------------------------------------------------------------- files
def files(ctx):
    ctx.rule('the images that a texture hands out for copying are compared with the images its config names below hxr/textures and with the image files of the package; copy_data is evaluated for every texture')
    ctx.assumption('images below hxr/textures are the ones that come with the package, all others come with the game')

    def go():
        R = Textures(ctx)
        for ci in texture_classes(R):
            key = 'texture ' + ci.qual.split('.')[-1]
            try:
                files_one(ctx, R, ci, key)
            except evalt.Unknown as e:
                ctx.undecided(key, where(ci), str(e)[:200])
        for ci in R.managers():
            for half in (0, 1):
                key = 'copies of %s (%d)' % (ci.name, half)
                try:
                    copies_one(ctx, R, ci, key, half)
                except evalt.Unknown as e:
                    ctx.undecided(key, where(ci), str(e)[:200])
        return R.I
    return guarded(ctx, 'textures', go)


def file_names(R, t):
    I, st = R.I, R.st
    f = I.getattr_(t, 'files', st, None, quiet=True)
    if f is None:
        return [], '-'
    loc = f.args[1].args[0].loc if f.op == 'bm' else '-'
    v = I.freeze(I.call(f, [], {}, st, None), st)
    if st.dead:
        return None, loc
    ps = v.args[1] if v.op == 'seq' else (tuple(('i', x) for x in v.args) if v.op == 'tup' else None)
    if ps is None or not all(p[0] == 'i' and (isk(p[1])) for p in ps):
        raise evalt.Unknown('files %s' % show(v)[:60])
    return [kv(p[1]) for p in ps], loc


def files_one(ctx, R, ci, key):
    I = R.I
    R.st = st = I.state()
    t = I.call(mk('cls', ci), [], {}, st, None)
    images, _ = R.images(t)
    own = sorted({v[len('hxr/textures/'):] for v in images.values() if v.startswith('hxr/textures/')})
    got, loc = file_names(R, t)
    if got is None:
        ctx.violation(key, loc, 'listing the files of %s fails' % ci.name)
        return
    if sorted(set(got)) != own:
        off = sorted(set(own) ^ set(map(str, got)))[0]
        ctx.violation(key, loc, '%s: %s is %s' % (ci.name, off, 'in the config, but is not copied' if off in own else 'copied, but not in the config'))
        return
    src = R.attr(t, 'srcpath')
    good = True
    for f in own:
        p = os.path.join(ctx.repo, 'redeclipse', 'textures', kv(src) if src is not None and iskt(src, 'str') else '', f)
        if not os.path.isfile(p):
            ctx.violation('file:' + f, where(ci), 'the image %s of texture %s does not exist in the package' % (f, ci.name))
            good = False
        ctx.stat('files_looked_up')
    if good:
        ctx.ok(key)


def copies_one(ctx, R, ci, key, half):
    I = R.I
    m = R.new(ci)
    names = R.names(m)
    want, src = set(), {}
    for n in sorted(names)[half::2]:
        images, _ = R.images(names[n])
        if 'c' in images:
            R.ask(m, 'get', n)
            l, _ = file_names(R, names[n])
            for f in l or ():
                want.add(f)
                src[f] = kv(R.attr(names[n], 'srcpath'))
    if half and R.I.find_method(m, 'get_colour', R.st) is not None:
        R.ask(m, 'get_colour', 0.5, 0.25, 0.75)
        want.add('empty.png')
        src['empty.png'] = kv(I.getattr_(I.lookup(COLOUR), 'srcpath', R.st, None))
    R.copied = []
    f = I.getattr_(m, 'copy_data', R.st, None)
    loc = f.args[1].args[0].loc
    I.call(f, [], {}, R.st, None)
    if R.st.dead:
        ctx.violation(key, loc, '%s: copying the images fails: %s' % (ci.name, show(R.st.dead) if isinstance(R.st.dead, T) else R.st.dead))
        return
    got = set()
    for a, b, at in R.copied:
        x, y = path_text(R.I.freeze(a, R.st)), path_text(R.I.freeze(b, R.st))
        if x is None or y is None:
            raise evalt.Unknown('paths %s, %s' % (show(a)[:60], show(b)[:60]))
        base = os.path.basename(x)
        if base not in src or not x.endswith('/' + src[base] + '/' + base):
            ctx.violation(key, at, '%s: %s is copied' % (ci.name, x))
            return
        if not (y.rstrip('/').endswith('data/hxr/textures/' + base) or y.rstrip('/').endswith('data/hxr/textures')):
            ctx.violation(key, at, '%s: %s is copied to %s' % (ci.name, base, y))
            return
        got.add(base)
    ctx.require(got == want, key, loc, '%s: %s is %s' % (ci.name, sorted(got ^ want)[0] if got != want else '', 'not copied' if want - got else 'copied, though no texture needs it'))
    ctx.stat('files_copied', len(got))


def path_text(v):
    """text of a path, with the folder of a module written as <module>"""
    if iskt(v, 'str'):
        return kv(v)
    if v.op == 'modfile':
        return '<%s>/__init__.py' % v.args[0]
    if v.op in ('pathjoin', 'cat', 'dirname', 'concat'):
        l = [path_text(a) for a in v.args]
        if any(x is None for x in l):
            return None
        return os.path.join(*l) if v.op == 'pathjoin' else (''.join(l) if v.op != 'dirname' else os.path.dirname(l[0]))
    if v.op == 'ret' and v.args[0].op == 'ext':
        l = [path_text(a) for a in v.args[1]]
        if any(x is None for x in l):
            return None
        if v.args[0].args[0] == 'os.path.join':
            return os.path.join(*l)
        if v.args[0].args[0] == 'os.path.dirname':
            return os.path.dirname(l[0])
    return None
