"""Maps as dictionaries and JSON: what is exported, and what an import gives back."""
from .common import *
from ..eqv import cmp
from .entities import TABLE, generic_entity, show_dead

MOD = 'redeclipse:'
LOC = 'redeclipse/__init__.py'
CUBE = 'redeclipse.objects:cube'
PARTS = ('magic', 'version', 'headersize', 'meta', 'map_vars', 'texmru', 'entities', 'world', 'vslots', 'chg')
META = ('worldsize', 'numents', 'numpvs', 'lightmaps', 'blendmap', 'numvslots', 'gamever', 'revision', 'gameident', 'numvars')


class NotJson(Exception):
    pass


class Unsure(Exception):
    pass


def raw(k):
    return k.encode('utf-8', 'surrogateescape')


def lst(st, xs):
    return st.alloc(Seq('list', tuple(('i', x) for x in xs)))


def py(v, st, gens, path='the map'):
    """a value as lists, dictionaries with text keys, and terms: what JSON makes of it"""
    if not isinstance(v, T):
        raise Unsure('%s: %s' % (path, v))
    if v.op == 'k':
        if isinstance(kv(v), bytes):
            raise NotJson('%s is %r: bytes' % (path, kv(v)))
        return v
    if v.op == 'tup':
        return [py(x, st, gens, '%s[%d]' % (path, i)) for i, x in enumerate(v.args)]
    if v.op == 'ref':
        o = st.obj(v)
        if isinstance(o, Seq):
            if o.kind == 'gen' and not gens:
                raise NotJson('%s is a generator' % path)
            if o.kind not in ('list', 'tuple', 'gen', 'range'):
                raise NotJson('%s is a %s' % (path, o.kind))
            if any(p[0] != 'i' for p in o.pieces):
                if len(o.pieces) == 1 and o.pieces[0][0] == 'sp':
                    return o.pieces[0][1]
                raise Unsure('%s: %s' % (path, show(v)[:100]))
            return [py(p[1], st, gens, '%s[%d]' % (path, i)) for i, p in enumerate(o.pieces)]
        if isinstance(o, Dic):
            out = {}
            for p in o.pieces:
                if p[0] != 'i' or not isinstance(p[1], tuple) or p[1][0].op != 'k':
                    raise Unsure('%s has keys that are not known: %r' % (path, p))
                k = kv(p[1][0])
                if isinstance(k, bytes):
                    raise NotJson('%s has the key %r: bytes' % (path, k))
                out[k if isinstance(k, str) else str(k)] = py(p[1][1], st, gens, '%s.%s' % (path, k))
            return out
        raise NotJson('%s is an object of the class %s' % (path, o.cls.name if isinstance(o, Inst) and o.cls else type(o).__name__))
    if v.op in ('enum', 'enumm', 'obj', 'cls', 'fn', 'bm'):
        raise NotJson('%s is %s' % (path, show(v)[:80]))
    if v.op == 'top' or has_top(v):
        raise Unsure('%s: %s' % (path, show(v)[:100]))
    return v


def heap(x, st):
    """the value that reading JSON makes of it"""
    if isinstance(x, list):
        return lst(st, [heap(y, st) for y in x])
    if isinstance(x, dict):
        return st.alloc(Dic(tuple(('i', (K(k), heap(y, st))) for k, y in x.items())))
    return x


def same(got, want, path=''):
    """differences of two such values: (verdict, path, text)"""
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return [('diff' if isinstance(got, list) or got.op in ('k', 'sym') else 'unk', path, 'is %s' % brief(got))]
        out = []
        for k in want:
            out += [('diff', path, 'has no %s' % k)] if k not in got else same(got[k], want[k], '%s.%s' % (path, k))
        return out
    if isinstance(want, list):
        if not isinstance(got, list):
            return [('diff' if isinstance(got, dict) or got.op in ('k', 'sym') else 'unk', path, 'is %s, not a list' % brief(got))]
        if len(got) != len(want):
            return [('diff', path, 'has %d parts instead of %d' % (len(got), len(want)))]
        return [d for i, (g, w) in enumerate(zip(got, want)) for d in same(g, w, '%s[%d]' % (path, i))]
    if isinstance(got, (list, dict)):
        return [('diff' if want.op in ('k', 'sym') else 'unk', path, 'is %s instead of %s' % (brief(got), brief(want)))]
    out = []
    for v, p, d in cmp(got, want):
        if v in ('diff', 'kind', 'extra'):
            out.append(('diff', path, 'is %s instead of %s' % (brief(got), brief(want))))
        elif v != 'same':
            out.append(('unk', path, str(d)[:160]))
    return out


def brief(x):
    if isinstance(x, list):
        return '[%s]' % ', '.join(brief(y) for y in x[:4])
    if isinstance(x, dict):
        return '{%s}' % ', '.join(str(k) for k in list(x)[:6])
    return show(x)[:80]


def settle(ctx, key, where, ds, what):
    bad = [d for d in ds if d[0] == 'diff']
    unk = [d for d in ds if d[0] != 'diff']
    if bad:
        ctx.violation(key, where, '%s%s %s' % (what, bad[0][1], bad[0][2]))
    elif unk:
        ctx.undecided(key, where, '%s%s %s' % (what, unk[0][1], unk[0][2]))
    else:
        ctx.ok(key)


# ---------------------------------------------------------------- maps to export
TEXTS = {
    'plain': {'title': ('t', b'Old Town'), 'author': ('t', b''), 'sunlight': ('i',), 'ambient': ('f',)},
    'none': {},
    'bytes': {'title': ('t', b'Ch\xe2teau \x0cy\xff'), 'caf\udce9': ('i',), 'note': ('t', b'\xc3\xa9')},
    'utf8': {'title': ('t', 'Ödland ☃'.encode()), 'fogcolour': ('i',), 'mapdesc': ('t', b'a "quoted" \\ line\n'), 'skybox': ('t', b'skyboxes/black')},
}
WORLDS = ('empty', 'mixed', 'deep')


def surface(I, st, a):
    return I.call(I.lookup('redeclipse.objects:SurfaceInfo'), [I.sym('%s%d' % (a, i), 'int') for i in range(4)], {}, st, None)


def cube(I, st, how, n):
    """one cube and what its dictionary must hold"""
    def s(x):
        return I.sym('%s%d' % (x, n), 'int')
    tex = lambda x: I.getattr_(I.getattr_(I.lookup('redeclipse.enums:TextNum'), x, st, None), 'value', st, None)
    if how == 'none':
        return K(None), {}
    if how == 'tex':
        c = I.call(I.lookup(CUBE + '.newtexcube'), [s('tex')], {}, st, None)
    else:
        c = I.call(I.lookup(CUBE + '.newcube'), [], {}, st, None)

    def put(k, v):
        I.setattr_(c, k, v, st, None)
    want = {'children': []}
    if how in ('plain', 'read'):
        want['ext'] = K(None)
    if how == 'tex':
        want['texture'] = [s('tex')] * 6
    if how == 'plain':
        want['texture'] = [tex('DEFAULT_GEOM')] * 6
    if how == 'read':
        xs = [I.sym('t%d_%d' % (n, i), 'int') for i in range(6)]
        es = [I.sym('e%d_%d' % (n, i), 'int') for i in range(12)]
        put('texture', lst(st, xs))
        put('edges', mk('tup', *es))
        put('octsav', K((3 | 0x40, 2, 1 | 0x40, 3)[n % 4]))
        put('material', s('mat'))
        want.update(texture=xs, edges=es, material=s('mat'))
    if how == 'lit':
        put('octsav', K((0x23, 0x22, 0x63)[n % 3]))
        put('surfmask', s('mask'))
        put('totalverts', s('tv'))
        I.call(I.getattr_(c, 'newcubeext', st, None), [s('tv'), K(False)], {}, st, None)
        x = I.getattr_(c, 'ext', st, None)
        faces = [surface(I, st, 's%d_%d_' % (n, i)) if i in (1, 2, 5) else K(None) for i in range(6)]
        I.setattr_(x, 'surfaces', lst(st, faces), st, None)
        want.update(surfmask=s('mask'), totalverts=s('tv'))
        sv = lambda i, k: I.sym('s%d_%d_%d' % (n, i, k), 'int')
        want['ext'] = {'surfaces': [{'lmid': [sv(i, 0), sv(i, 1)], 'verts': sv(i, 2), 'numverts': sv(i, 3)} if i in (1, 2, 5) else K(None) for i in range(6)]}
    for k in ('octsav', 'surfmask', 'totalverts', 'material', 'escaped', 'visible'):
        want.setdefault(k, I.getattr_(c, k, st, None))
    if how == 'tex':
        seq = lambda v: [p[1] for p in st.obj(v).pieces]
        at = lambda v, k: I.getattr_(v, k, st, None)
        want['ext'] = {'surfaces': [{'lmid': seq(at(x, 'lmid')), 'verts': at(x, 'verts'), 'numverts': at(x, 'numverts')} for x in seq(at(at(c, 'ext'), 'surfaces'))]}
    return c, want


def octree(I, st, kinds, n=0):
    cs, ws = [], []
    for i, k in enumerate(kinds):
        if isinstance(k, tuple):
            c, w = cube(I, st, 'plain', n + i)
            sub, sw = octree(I, st, k, (n + i + 1) * 10)
            I.setattr_(c, 'children', sub, st, None)
            w.update(children=sw)
        else:
            c, w = cube(I, st, k, n + i)
        cs.append(c)
        ws.append(w)
    return lst(st, cs), ws


TREES = {
    'empty': (),
    'mixed': ('tex', 'plain', 'read', 'lit', 'tex', 'plain', 'read', 'plain'),
    'deep': ('plain', ('tex', 'read', 'none', 'plain', ('lit', 'plain', 'plain', 'read', 'tex', 'tex', 'tex', 'plain'), 'plain', 'none', 'tex'), 'read', 'tex', 'plain', 'plain', 'lit', 'tex'),
}


def build(I, st, texts, tree, full):
    """a map, and what its dictionary must hold"""
    M = I.lookup(MOD + 'Map')
    want = {'magic': K('MAPZ'), 'version': I.sym('version', 'int'), 'headersize': I.sym('headersize', 'int')}
    meta = [(K(k), K(b'fps') if k == 'gameident' else I.sym(k, 'int')) for k in META]
    want['meta'] = [[k, K('fps') if kv(k) == 'gameident' else v] for k, v in meta]
    vs, wv = [], []
    for k, t in texts.items():
        v = K(t[1]) if t[0] == 't' else I.sym('v_' + k, 'int' if t[0] == 'i' else 'float')
        vs.append((K(raw(k)), v))
        wv.append([K(k), K(t[1].decode('utf-8', 'surrogateescape')) if t[0] == 't' else v])
    want['map_vars'] = wv
    mru = [K(7), K(3), K(12), K(3)] if full else []
    want['texmru'] = mru
    ents, we = [], []
    for n, kind in enumerate(sorted(TABLE) if full else ()):
        e = generic_entity(I, st, kind)
        links = [K(9), K(4), K(9)] + ([I.sym('l0', 'int')] if n % 2 else [])
        I.setattr_(e, 'links', lst(st, links), st, None)
        ents.append(e)
        d = py(I.call(I.getattr_(e, 'to_dict', st, None), [], {}, st, None), st, True)
        if isinstance(d, dict):
            d['links'] = links
        we.append(d)
    want['entities'] = we
    slots, ws = [], []
    V = I.lookup('redeclipse.objects:VSlot')
    for i in range(3 if full else 0):
        v = I.call(V, [K(None), K(i)], {}, st, None)
        w = {'a': K(None), 'b': K(i)}
        if i == 2:
            for k in ('slot', 'index', 'changed', 'scale', 'rotation', 'layer', 'palette', 'palindex', 'alphafront', 'alphaback', 'coastscale'):
                I.setattr_(v, k, I.sym('slot_' + k, 'int'), st, None)
                w[k] = I.sym('slot_' + k, 'int')
            for k, c, n in (('offset', 'ivec2', 'xy'), ('scroll', 'vec2', 'xy'), ('colorscale', 'vec3', 'xyz')):
                xs = [K(13 - 6 * j) if c == 'ivec2' else K(2.5 - 1.25 * j) for j, _ in enumerate(n)]
                I.setattr_(v, k, I.call(I.lookup('redeclipse.vector.re:' + c), xs, {}, st, None), st, None)
                w[k] = xs
        slots.append(v)
        ws.append(w)
    want['vslots'] = ws
    chg = [I.sym('chg%d' % i, 'int') for i in range(2 if full else 0)]
    want['chg'] = chg
    world, ww = octree(I, st, TREES[tree])
    want['world'] = ww
    od = st.alloc(Dic(tuple(('i', p) for p in meta)))
    ov = st.alloc(Dic(tuple(('i', p) for p in vs)))
    m = I.call(M, [], {'magic': K(b'MAPZ'), 'version': want['version'], 'headersize': want['headersize'], 'meta': od, 'map_vars': ov, 'texmru': lst(st, mru), 'ents': lst(st, ents),
                       'vslots': lst(st, slots), 'chg': lst(st, chg), 'worldroot': world}, st, None)
    return m, want


class Json:
    """stand-ins for the JSON modules"""

    def __init__(self):
        self.out, self.data = [], {}

    def dumps(self, gens):
        def go(I, a, kw, st, node):
            g = gens and kw.get('iterable_as_array') is not None and kv(kw['iterable_as_array']) is True
            self.out.append((a[0], g, st))
            if gens is False and kw.get('iterable_as_array') is not None:
                I.fail(st, 'TypeError', 'unexpected keyword iterable_as_array', node)
                return K(None)
            self.data[len(self.out)] = py(a[0], st, g)
            return mk('jsontext', K(len(self.out)), ty='str')
        return go

    def dump(self, gens):
        def go(I, a, kw, st, node):
            t = self.dumps(gens)(I, a, kw, st, node)
            I.call(I.getattr_(a[1], 'write', st, node), [t], {}, st, node)
            return K(None)
        return go

    def cfg(self):
        return {'max_steps': 20000000, 'unroll': 400, 'unroll_true': 400, 'rec_unroll': 8,
                'ext': {'json.dumps': self.dumps(False), 'simplejson.dumps': self.dumps(True), 'json.dump': self.dump(False), 'simplejson.dump': self.dump(True)}}


CASES = [('plain', 'empty', False), ('plain', 'mixed', True), ('utf8', 'deep', True), ('none', 'deep', False), ('bytes', 'empty', False)]


def export(ctx):
    ctx.rule('to_dict and from_dict are evaluated abstractly on maps with symbolic numbers; the dictionary is turned into what JSON makes of it and compared part by part with a description '
             'written from the map; the imported map is exported and written again and compared with the first one')

    def go():
        for texts, tree, full in CASES:
            guarded(ctx, 'map %s/%s' % (texts, tree), json_ok, ctx, 'map %s/%s' % (texts, tree), LOC, one, texts, tree, full)
        for part in (None,) + PARTS:
            guarded(ctx, 'to_json %s' % part, to_json, ctx, part)
        guarded(ctx, 'from_json', from_json, ctx)
    return guarded(ctx, 'export', go)


def json_ok(ctx, key, where, fn, *a):
    try:
        return fn(ctx, *a)
    except NotJson as e:
        ctx.violation(key + '/json', where, '%s, which JSON cannot represent' % e)
    except Unsure as e:
        ctx.undecided(key + '/json', where, str(e))


def method(I, m, name, st, args=()):
    return I.call(I.getattr_(m, name, st, None), list(args), {}, st, None)


def one(ctx, texts, tree, full):
    key = '%s/%s' % (texts, tree)
    J = Json()
    I = engine(ctx, J.cfg(), ('redeclipse',))
    st = I.state()
    m, want = build(I, st, TEXTS[texts], tree, full)
    if st.dead:
        raise AnalysisError('the map for %s cannot be built: %s' % (key, show_dead(st)))
    d = method(I, m, 'to_dict', st)
    if st.dead:
        return ctx.violation(key + '/to_dict', LOC, 'to_dict of a map (%s) fails: %s' % (key, show_dead(st)))
    try:
        got = py(d, st, True)
    except NotJson as e:
        return ctx.violation(key + '/json', LOC, 'the dictionary of the map (%s) holds a value that JSON cannot represent: %s' % (key, e))
    except Unsure as e:
        return ctx.undecided(key + '/json', LOC, str(e))
    ctx.ok(key + '/json')
    for part in PARTS:
        if part not in got:
            ctx.violation('%s/%s' % (key, part), LOC, 'the dictionary of a map has no %s' % part)
        else:
            settle(ctx, '%s/%s' % (key, part), LOC, same(got[part], want[part]), 'the dictionary of the map (%s): %s' % (key, part))
    j = method(I, m, 'to_json', st)
    if st.dead or j.op != 'jsontext':
        ctx.undecided(key + '/to_json', LOC, 'to_json: %s' % (show_dead(st) if st.dead else show(j)[:100]))
        if st.dead:
            return None
    else:
        settle(ctx, key + '/to_json', LOC, same(J.data[kv(j.args[0])], got), 'to_json of a map (%s) is the JSON of something else: it' % key)
    # the import
    f = I.call(I.getattr_(I.lookup(MOD + 'Map'), 'from_dict', st, None), [heap(got, st)], {}, st, None)
    if st.dead:
        return ctx.violation(key + '/from_dict', LOC, 'from_dict of the exported map (%s) fails: %s' % (key, show_dead(st)))
    d2 = method(I, f, 'to_dict', st)
    if st.dead:
        return ctx.violation(key + '/again', LOC, 'an imported map (%s) cannot be exported again: %s' % (key, show_dead(st)))
    try:
        again = py(d2, st, True)
    except NotJson as e:
        return ctx.violation(key + '/again', LOC, 'the dictionary of an imported map (%s) holds a value that JSON cannot represent: %s' % (key, e))
    except Unsure as e:
        return ctx.undecided(key + '/again', LOC, str(e))
    for part in PARTS:
        if part != 'world':
            settle(ctx, '%s/again/%s' % (key, part), LOC, same(again.get(part, K(None)), got[part]) + same(got[part], again.get(part, K(None))), 'an imported map (%s), exported again: %s' % (key, part))
    # values that the dictionary does not tell apart
    vs = st.obj(I.getattr_(f, 'map_vars', st, None))
    ks = [p[1][0] for p in vs.pieces] if isinstance(vs, Dic) and all(p[0] == 'i' for p in vs.pieces) else None
    if ks is None:
        ctx.undecided(key + '/keys', LOC, 'the variables of the imported map are not known')
    else:
        ctx.require(ks == [K(raw(k)) for k in TEXTS[texts]], key + '/keys', LOC, 'the names of the variables of an imported map (%s) are %s instead of the bytes of the names' % (key, [show(k) for k in ks]))
    written(ctx, key, I, st, m, f)
    return I


def written(ctx, key, I, st, m, f):
    """both maps, without their worlds, are written: the same bytes"""
    outs = []
    for x, n in ((m, 'a map'), (f, 'an imported map')):
        I.setattr_(x, 'world', lst(st, []), st, None)
        st.eff = []
        method(I, x, 'write', st, [K('/maps/x.mpz')])
        if st.dead:
            return ctx.undecided(key + '/written', LOC, 'writing %s fails: %s' % (n, show_dead(st)))
        outs.append([e for e in st.eff if e.kind == 'write'])
    st.eff = []
    if any(e.kind not in ('write', 'open', 'close') for o in outs for e in o):
        return ctx.undecided(key + '/written', LOC, 'what is written is not known')
    a, b = ([I.freeze(e.data[1], st) for e in o] for o in outs)
    ctx.stat('writes_compared', len(a))
    if a == b:
        return ctx.ok(key + '/written')
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    if len(a) == len(b) and any(v not in ('diff', 'kind', 'extra', 'same') for v, p, d in cmp(b[n], a[n])):
        return ctx.undecided(key + '/written', LOC, 'write %d: %s' % (n, show(b[n])[:100] if n < len(b) else 'nothing'))
    ctx.violation(key + '/written', LOC, 'an imported map (%s) is written with other bytes: %s instead of %s' % (key, show(b[n])[:80] if n < len(b) else 'nothing', show(a[n])[:80] if n < len(a) else 'nothing'))


# ---------------------------------------------------------------- the tools
class Tool:
    """a command line tool with chosen arguments"""

    def __init__(self, ctx, module, given, extra=None):
        self.J = J = Json()
        self.given, self.texts, self.written = given, [], []
        cfg = J.cfg()
        cfg['ext'].update({'argparse.ArgumentParser': self.parser, 'tool add': self.add, 'tool parse': lambda I, a, kw, st, node: self.args, 'tool read': lambda I, a, kw, st, node: mk('jsontext', K(0), ty='str'),
                           'tool none': lambda I, a, kw, st, node: K(None), 'argparse.FileType': lambda I, a, kw, st, node: mk('ext', 'filetype'),
                           'sys.stdout.write': self.out, 'print': self.print_, 'json.load': self.load, 'simplejson.load': self.load, 'json.loads': self.load, 'simplejson.loads': self.load})
        cfg['intrinsics'] = dict({'redeclipse:Map.write': self.write}, **(extra or {}))
        self.I = engine(ctx, cfg, ('redeclipse', module))
        self.st = self.I.state()
        self.args = self.st.alloc(Inst(None, {}, where='arguments'))

    def parser(self, I, a, kw, st, node):
        return st.alloc(Inst(None, {'add_argument': mk('ext', 'tool add'), 'parse_args': mk('ext', 'tool parse')}, where='argument parser'))

    def add(self, I, a, kw, st, node):
        names = [kv(x) for x in a if iskt(x, 'str')]
        long = next((n for n in names if n.startswith('--')), names[0] if names else '?')
        dest = kv(kw['dest']) if 'dest' in kw else long.lstrip('-').replace('-', '_')
        v = self.given.get(dest)
        if v is None:
            v = kw.get('default', K(None))
        elif isinstance(v, str):
            v = K(v)
            if kw.get('type') is not None and 'filetype' in show(kw['type']):
                v = st.alloc(Inst(None, {'name': v, 'read': mk('ext', 'tool read'), 'close': mk('ext', 'tool none')}, where='file'))
        I.setattr_(self.args, dest, v, st, node)
        return K(None)

    def out(self, I, a, kw, st, node):
        self.texts.append(a[0])
        return K(None)

    def print_(self, I, a, kw, st, node):
        if kw.get('file') is None:
            self.texts += list(a)
        return K(None)

    def load(self, I, a, kw, st, node):
        return heap(self.data, st)

    def write(self, I, a, kw, st, node):
        self.written.append((a[0], a[1] if len(a) > 1 else kw.get('path', K(None))))
        return K(None)

    def main(self, module):
        I, st = self.I, self.st
        I.call(I.lookup(module + ':main'), [], {}, st, None)
        if st.dead:
            raise AnalysisError('main of %s fails: %s' % (module, show_dead(st)))


def to_json(ctx, part):
    given = {'input': 'in.mpz', 'section': part}
    asked = []

    def parse(I, a, kw, st, node):
        asked.append(a[0])
        return m
    t = Tool(ctx, 'redeclipse.cli.to_json', given, {'redeclipse.cli:parse': parse})
    I, st, loc = t.I, t.st, 'redeclipse/cli/to_json.py'
    m, want = build(I, st, TEXTS['utf8'], 'deep', True)
    key = 'to_json/%s' % (part or 'all')
    try:
        t.main('redeclipse.cli.to_json')
    except NotJson as e:
        return ctx.violation(key, loc, 'to_json (%s): %s, which JSON cannot represent' % (part or 'whole map', e))
    if asked != [K('in.mpz')]:
        return ctx.violation(key, loc, 'to_json reads %s instead of the map it is given' % [show(x) for x in asked])
    body = [x for x in t.texts if not (iskt(x, 'str') and not kv(x).strip())]
    if any(x.op != 'jsontext' for x in body):
        return ctx.undecided(key, loc, 'what is printed is not known: %s' % [show(x)[:80] for x in body])
    if len(body) != 1:
        return ctx.violation(key, loc, 'to_json (%s) prints %d texts' % (part or 'whole map', len(body)))
    data = t.J.data[kv(body[0].args[0])]
    settle(ctx, key, loc, same(data, want if part is None else want[part]), 'to_json (%s) prints the JSON of something else: it' % (part or 'whole map'))
    return I


def from_json(ctx):
    t = Tool(ctx, 'redeclipse.cli.from_json', {'input': 'in.json', 'output': 'out.mpz'})
    I, st, loc = t.I, t.st, 'redeclipse/cli/from_json.py'
    m, want = build(I, st, TEXTS['utf8'], 'deep', True)
    t.data = py(method(I, m, 'to_dict', st), st, True)
    t.main('redeclipse.cli.from_json')
    if len(t.written) != 1:
        return ctx.violation('from_json', loc, 'from_json writes %d maps' % len(t.written))
    x, path = t.written[0]
    if path != K('out.mpz'):
        return ctx.violation('from_json/path', loc, 'from_json writes to %s instead of the given file' % show(path)[:80])
    again = py(method(I, x, 'to_dict', st), st, True)
    for part in PARTS:
        if part != 'world':
            settle(ctx, 'from_json/%s' % part, loc, same(again.get(part, K(None)), t.data[part]), 'from_json writes a map with another %s: it' % part)
    return I
