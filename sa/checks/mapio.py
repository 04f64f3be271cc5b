"""Map files: what is read is what is written, the layout, well-formedness of generated maps."""
from .common import *
from .. import cmp as C
from .. import layout as L
from .. import evalt
from ..chain import Chain
from ..tapecmp import Mismatch, Undecided, reader_items, writer_items

CFG = {'opaque': {'redeclipse.objects:cube.validatec': None}}


def parse(ctx, unroll=0):
    tp = Tape()
    I = engine(ctx, tp.cfg(dict(CFG, rec_unroll=unroll)))
    st = I.state()
    par = I.call(I.lookup('redeclipse:MapParser'), [], {}, st, None)
    rd = I.getattr_(par, 'read', st, None)
    m = I.call(rd, [I.sym('path', 'str')], {}, st, None)
    if st.dead:
        raise AnalysisError('MapParser.read never returns: %s' % (st.dead,))
    return I, st, m


def write(I, st, m):
    st.eff = []
    I.call(I.getattr_(m, 'write', st, None), [I.sym('out', 'str')], {}, st, None)
    return list(st.eff)


def handles(effs):
    return [e.data[0] for e, _ in walk(effs) if e.kind == 'open']


def dontcare(c, ia, nxt, val, facts):
    """the vertex description byte of a surface without vertices carries no information (written as 0)"""
    if not iskt(val, 'int') or kv(val) != 0 or ia[1] != 'B' or nxt is None or nxt.item[0] != 'n' or nxt.item[1] != 'B':
        return False
    return c.lg.decide(eq0(mod(nxt.item[2], K(16))), facts) is True


def stats(ctx, c):
    ctx.stat('fields_matched', c.matched)
    ctx.stat('repetitions_matched', c.loops)
    ctx.stat('recursive_descents_matched', c.recs)
    ctx.stat('path_conditions_split', c.splits)
    ctx.stat('conditions_decided', c.lg.asked)


def report(ctx, key, e):
    where = e.loc2 or e.loc or '-'
    path = [show(f)[:140] for f in list(e.facts)[:10]]
    ctx.violation(key, where, e.why + (' (read at %s)' % e.loc if e.loc and e.loc2 else ''), path)


def roundtrip(ctx):
    ctx.rule('consumer/producer simulation: the byte stream consumed by MapParser.read and the one produced by Map.write on its result '
             'are value-numbered; on every path each field read must be written back with the same width and the same value number')
    ctx.assumption('map variable names are distinct; text fields end with the NUL that the format prescribes')
    ctx.assumption('struct, gzip and int semantics are those of the CPython documentation')

    def go():
        I, st, m = parse(ctx)
        R = list(st.eff)
        W = write(I, st, m)
        if st.dead:
            ctx.violation('write-raises', '-', 'Map.write always fails on a map that was read: %s' % show(st.dead)[:200] if isinstance(st.dead, T) else 'Map.write always fails on a map that was read')
            return I
        hs = [h for h in handles(W)]
        if len(hs) != 1:
            ctx.undecided('one-output', '-', '%d files opened for writing' % len(hs))
            return I
        for h, what in ((handles(R), 'read'), (hs, 'write')):
            ctx.ok('one %s stream' % what)
        c = C.Cmp('writer', dontcare=dontcare, refusal=('NotImplementedError',), budget=6000)
        try:
            c.check(reader_items(R), writer_items(W, hs[0]))
            ctx.ok('all fields of all paths are written back')
            for k in range(c.matched):
                pass
        except Mismatch as e:
            report(ctx, 'roundtrip', e)
        except Undecided as e:
            ctx.undecided('roundtrip', '-', e)
        stats(ctx, c)
        return I
    return guarded(ctx, 'roundtrip', go)


def layout(ctx):
    ctx.rule('layout automaton: the fields consumed by MapParser.read are simulated against an independent description of the MAPZ layout '
             '(order, width, repetition counts, presence conditions, rejected tags); contiguity: each read starts where the previous one ended on every path')
    ctx.assumption('lit surfaces (with stored vertices) are refused with NotImplementedError, as documented')

    def go():
        I, st, m = parse(ctx)
        R = list(st.eff)
        bufs = {e.data[1][0] for e, _ in walk(R) if e.kind == 'read'}
        main = {b for b in bufs if b.op == 'filebytes'}
        ch = Chain(lambda b: b in main)
        try:
            ch.walk(R, None)
            ctx.ok('reads are contiguous')
        except Mismatch as e:
            report(ctx, 'contiguous', e)
        except Undecided as e:
            ctx.undecided('contiguous', '-', e)
        ctx.stat('reads', ch.reads)
        c = C.Cmp('spec', refusal=('NotImplementedError',), budget=6000)
        try:
            c.check(reader_items(R), L.mapz(L.vslot_progress))
            ctx.ok('reader follows the layout on every path')
        except Mismatch as e:
            report(ctx, 'layout', e)
        except Undecided as e:
            ctx.undecided('layout', '-', e)
        stats(ctx, c)
        ctx.stat('rejections', c.rejects)
        return I
    return guarded(ctx, 'layout', go)


ENT = 'redeclipse.entities:'
CUBE = 'redeclipse.objects:cube'


def ints(n):
    """type description: a list of n integers"""
    def mkty(I, term):
        from ..state import new_oid
        oid = new_oid()
        I.base[oid] = Seq('list', tuple(('i', mk('item', term, K(i), ty='int')) for i in range(n)))
        return Ref(oid)
    return mkty


def generated(ctx):
    """a map with arbitrary entities, variables, textures, slots, and nodes made by the node constructors"""
    I, st, m = parse(ctx)
    ecls = I.lookup(ENT + 'Entity').args[0]
    I.ftypes.update({('Entity', 'attrs'): ('list', 'int'), ('Entity', 'links'): ('list', 'int'), ('Entity', 'reserved'): ints(3),
                     ('Entity', 'type'): ('enum', 'redeclipse.enums:EntType'), ('Entity', 'o'): ('obj', 'redeclipse.vector.re:ivec3'),
                     ('ivec3', 'x'): 'num', ('ivec3', 'y'): 'num', ('ivec3', 'z'): 'num'})

    def setf(n, v):
        I.setattr_(m, n, v, st, None)
    setf('ents', I.sym('ents', ('list', ('obj', ENT + 'Entity'))))
    setf('texmru', I.sym('texmru', ('list', 'int')))
    setf('map_vars', I.sym('vars', ('dict', 'bytes', None)))
    cs = []
    for k in range(8):
        if k % 2:
            cs.append(I.call(I.lookup(CUBE + '.newtexcube'), [I.sym('tex%d' % k, 'int')], {}, st, None))
        else:
            cs.append(I.call(I.lookup(CUBE + '.newcube'), [], {}, st, None))
    setf('world', st.alloc(Seq('list', tuple(('i', c) for c in cs))))
    st.eff = []
    return I, st, m


def leaks(effs, hs):
    """handles still open when the normal end of the function is reached"""
    open_ = set(hs)
    for e in effs:
        if e.kind in ('close', 'exit'):
            open_.discard(e.data[0])
        elif e.kind == 'if':
            a, b = leaks(e.data[1], open_), leaks(e.data[2], open_)
            ra, rb = any(x.kind == 'raise' for x in e.data[1]), any(x.kind == 'raise' for x in e.data[2])
            open_ = (set() if ra else a) | (set() if rb else b)
        elif e.kind == 'try':
            for x in e.data:
                if isinstance(x, (list, tuple)):
                    open_ = leaks([y for y in x if hasattr(y, 'kind')], open_)
        elif e.kind == 'write' and e.data[0] in hs and e.data[0] not in open_:
            return {'late'}
    return open_


def wellformed(ctx):
    ctx.rule('producer/layout simulation: the bytes Map.write produces for a map with arbitrary contents are simulated against the MAPZ layout; '
             'each announced count must have the same value number as the repetition count of what follows')
    ctx.rule('typestate: the output handle is closed on every path to the end of Map.write and never written afterwards')

    def go():
        I, st, m = generated(ctx)
        I.call(I.getattr_(m, 'write', st, None), [I.sym('out', 'str')], {}, st, None)
        if st.dead:
            ctx.violation('write-raises', '-', 'Map.write always fails')
            return I
        W = list(st.eff)
        hs = handles(W)
        if len(hs) != 1:
            ctx.undecided('one-output', '-', '%d files opened' % len(hs))
            return I
        lk = leaks(W, {hs[0]})
        loc = next(e.loc for e, _ in walk(W) if e.kind == 'open')
        if 'late' in lk:
            ctx.violation('write-after-close', loc, 'data is written to the map file after it was closed')
        else:
            ctx.require(not lk, 'handle-closed', loc, 'Map.write returns without closing the compressed stream: the end of the file is missing')
        c = C.Cmp('spec', refusal=('NotImplementedError', 'exc(Exception)'), budget=3000)
        try:
            items = C.produced_items(writer_items(W, hs[0]))
            c.check(items, L.mapz(lambda *a: True))
            ctx.ok('generated file follows the layout on every path')
        except Mismatch as e:
            report(ctx, 'wellformed', e)
        except Undecided as e:
            ctx.undecided('wellformed', '-', e)
        stats(ctx, c)
        return I
    return guarded(ctx, 'wellformed', go)
