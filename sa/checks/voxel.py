"""The voxel world: point store and conversion to an octree."""
from .common import *
from .. import evalt
from ..eqv import judge

VW = 'redeclipse.voxel:VoxelWorld'
LOC = 'redeclipse/voxel/__init__.py'
AX = 'xyz'
CUBE = ('obj', 'redeclipse.objects:cube')
WTY = ('dict', ('tup', ('int', 'int', 'int')), CUBE)


def world(I, st, size, contents=True):
    w = I.call(I.lookup(VW), [size], {}, st, None)
    if contents:
        I.setattr_(w, 'world', I.sym('world', WTY), st, None)
    return w


def method(I, st, o, name, *a, **k):
    return I.call(I.getattr_(o, name, st, None), list(a), k, st, None)


def loc_of(I, st, o, name):
    f = I.getattr_(o, name, st, None, quiet=True)
    try:
        return f.args[1].args[0].loc
    except Exception:
        return LOC


# ---------------------------------------------------------------- octree
def children_of(node):
    """children list of an inner node, None for a leaf, 'bad' when neither"""
    if node.op == 'obj' and node.args[0].endswith(':cube'):
        f = dict(node.args[1])
        o = f.get('octsav')
        c = f.get('children')
        if o is None or not isnum(o):
            return 'bad'
        if kv(o) & 7 == 0:
            return elems(c)
        return None
    return 'bad'


def elems(c):
    if c is not None and c.op == 'seq' and all(p[0] == 'i' for p in c.args[1]):
        return [p[1] for p in c.args[1]]
    if c is not None and c.op == 'tup':
        return list(c.args)
    return 'bad'


def is_empty_leaf(node):
    if node.op != 'obj' or not node.args[0].endswith(':cube'):
        return None
    f = dict(node.args[1])
    o = f.get('octsav')
    if o is None or not isnum(o):
        return None
    return kv(o) & 7 == 1 and (f.get('children') is NONE)


def descend(t, path, depth, facts, out):
    """all (conditions, depth, leaf) reached when following path (list of child numbers) from node t"""
    if len(out) > 400:
        return
    if t.op == 'ite':
        c = t.args[0]
        d = decide(c, facts)
        if d is not False:
            descend(t.args[1], path, depth, facts_with(facts, c, True), out)
        if d is not True:
            descend(t.args[2], path, depth, facts_with(facts, c, False), out)
        return
    if depth < len(path):
        cs = children_of(t)
        if cs == 'bad':
            out.append((facts, depth, t, 'bad' if t.op != 'get' else 'leaf'))
            return
        if cs is not None:
            if len(cs) != 8:
                out.append((facts, depth, t, 'a node with %d children' % len(cs)))
                return
            descend(cs[path[depth]], path, depth + 1, facts, out)
            return
    out.append((facts, depth, t, 'leaf'))


def octree(ctx):
    ctx.rule('conversion is evaluated for worlds of 2, 4, 8 (and 16) cells per side with every voxel unknown: following, from the root, the child number made of the bits of x, y and z, '
             'must end at the stored cube at full depth, or at an empty leaf when nothing is stored')
    ctx.rule('one conversion step is evaluated for an arbitrary region and arbitrary results of its eight sub-regions: with the cases above this is an induction over all sizes')

    def concrete(size):
        I = engine(ctx, {'max_steps': 60000000}, ('redeclipse', 'redeclipse.voxel'))
        st = I.state()
        w = world(I, st, K(size))
        loc = loc_of(I, st, w, 'to_octree')
        r = method(I, st, w, 'to_octree')
        if st.dead:
            ctx.violation('octree-%d' % size, loc, 'conversion of a world of size %d fails: %s' % (size, show(st.dead)[:100] if isinstance(st.dead, T) else st.dead))
            return I
        t = I.freeze(r, st)
        fw = I.freeze(I.getattr_(w, 'world', st, None, quiet=True), st)
        ctx.require(fw is I.freeze(I.sym('world', WTY), st), 'world-%d' % size, loc, 'conversion changes the voxel world')
        n = size.bit_length() - 1
        wsym = fw
        bad = und = None
        worldt = mk('sym', 'world', ty=WTY)
        for x in range(size):
            for y in range(size):
                for z in range(size):
                    path = [((x >> b) & 1) | ((y >> b) & 1) << 1 | ((z >> b) & 1) << 2 for b in range(n - 1, -1, -1)]
                    key = mk('tup', K(x), K(y), K(z))
                    has, get = hasget(I, key, worldt)
                    for present in (True, False):
                        res = []
                        root = elems(t)
                        if root == 'bad':
                            und = und or ('root', show(t)[:100])
                            continue
                        if len(root) != 8:
                            bad = bad or ('root', 'the root has %d cubes instead of 8' % len(root))
                            continue
                        descend(root[path[0]], path, 1, facts_with(frozenset(), has, present), res)
                        for facts, depth, leaf, why in res:
                            pos = (x, y, z)
                            if why not in ('leaf', 'bad'):
                                bad = bad or (pos, why)
                            elif leaf is NONE:
                                bad = bad or (pos, 'the octree has a hole instead of a cube')
                            elif opaque_leaf(leaf) or why == 'bad':
                                und = und or (pos, show(leaf)[:100])
                            elif present:
                                if leaf is not get:
                                    if is_empty_leaf(leaf):
                                        bad = bad or (pos, 'the stored cube is missing (an empty cube is found)')
                                    elif leaf.op == 'get':
                                        bad = bad or (pos, 'the cube of %s is found instead' % show(leaf.args[1]))
                                    else:
                                        und = und or (pos, show(leaf)[:100])
                                elif depth != n:
                                    bad = bad or (pos, 'the stored cube is found at depth %d instead of %d' % (depth, n))
                                else:
                                    ctx.stat('voxels_followed')
                            else:
                                e = is_empty_leaf(leaf)
                                if e is False or leaf.op == 'get':
                                    bad = bad or (pos, 'nothing is stored but %s is found' % (('the cube of ' + show(leaf.args[1])) if leaf.op == 'get' else 'a non-empty cube'))
                                elif e is None:
                                    und = und or (pos, show(leaf)[:100])
                                else:
                                    ctx.stat('voxels_followed')
        if bad:
            ctx.violation('octree-%d' % size, loc, 'in a world of size %d, at %s: %s' % (size, bad[0], bad[1]))
        elif und:
            ctx.undecided('octree-%d' % size, loc, 'at %s: %s' % und)
        else:
            ctx.ok('octree-%d' % size)
        return I
    I = None
    for size in (2, 4, 8) + ((16,) if ctx.thorough else ()):
        I = guarded(ctx, 'octree-%d' % size, concrete, size) or I
    guarded(ctx, 'octree-step', step, ctx)
    return I


def opaque_leaf(t):
    """not analysable (the running number of cubes does not matter)"""
    if t.op == 'obj':
        return any(has_top(v) for k, v in t.args[1] if k in ('octsav', 'children'))
    return has_top(t)


def hasget(I, key, worldt):
    return mk('has', worldt, key, ty='bool'), mk('get', worldt, key, ty=CUBE)


def step(ctx):
    calls = []
    state = {'depth': 0}

    def inner(I, args, kw, st, node):
        state['depth'] += 1
        if state['depth'] == 1:
            return None
        names = ('self', 'x_bounds', 'y_bounds', 'z_bounds', 'layers')
        b = dict(zip(names, args))
        b.update(kw)
        lo_hi = []
        for k in names[1:4]:
            v = b.get(k)
            v = I.freeze(v, st) if v is not None else None
            if v is None or v.op != 'tup' or len(v.args) != 2:
                raise AnalysisError('sub-regions are not pairs of bounds')
            lo_hi += list(v.args)
        calls.append(tuple(lo_hi))
        return I.typed(mk('sym', 'sub%d' % (len(calls) - 1)), ('opt', CUBE))

    I = engine(ctx, {'intrinsics': {VW + '.to_octree': inner}}, ('redeclipse', 'redeclipse.voxel'))
    st = I.state()
    size = I.sym('size', 'int')
    w = world(I, st, size)
    loc = loc_of(I, st, w, 'to_octree')
    lo = [I.sym('lo' + k, 'int') for k in AX]
    h = I.sym('h', 'int')
    st.pc = facts_with(st.pc, le(K(1), h), True)
    bounds = [mk('tup', l, add(l, scale(h, 2))) for l in lo]
    r = method(I, st, w, 'to_octree', *bounds)
    if st.dead:
        ctx.violation('octree-step', loc, 'splitting a region fails: %s' % show(st.dead)[:100])
        return I
    if len(calls) == 0 or len(calls) % 8:
        raise AnalysisError('a region is not split by eight recursive calls')
    t = I.freeze(r, st)
    ok = True
    idx = {}
    for i, c in enumerate(calls):
        num = 0
        for ax in range(3):
            a, b = c[2 * ax], c[2 * ax + 1]
            if a is lo[ax] and b is add(lo[ax], h):
                pass
            elif a is add(lo[ax], h) and b is add(lo[ax], scale(h, 2)):
                num |= 1 << ax
            else:
                eqs = [evalt.equivalent(x, y) for x, y in ((a, lo[ax]), (b, add(lo[ax], h)))]
                eqh = [evalt.equivalent(x, y) for x, y in ((a, add(lo[ax], h)), (b, add(lo[ax], scale(h, 2))))]
                if all(e and e[0] for e in eqs):
                    pass
                elif all(e and e[0] for e in eqh):
                    num |= 1 << ax
                elif None in eqs or None in eqh:
                    ctx.undecided('octree-step', loc, 'sub-region bounds %s, %s' % (show(a), show(b)))
                    return I
                else:
                    ctx.violation('octree-step', loc, 'the region [lo, lo+2h) is split into [%s, %s) along %s' % (show(a)[:80], show(b)[:80], AX[ax]))
                    return I
        idx[num] = i
    if len(idx) != 8:
        ctx.violation('octree-step', loc, 'the eight sub-regions do not cover the region: child numbers %s' % sorted(idx))
        return I
    subs = []
    for num in range(8):
        s = I.typed(mk('sym', 'sub%d' % idx[num]), ('opt', CUBE))
        subs.append(s)
    # every way the step can end
    outs = []

    def leaves(t, facts):
        if t.op == 'ite':
            d = decide(t.args[0], facts)
            if d is not False:
                leaves(t.args[1], facts_with(facts, t.args[0], True))
            if d is not True:
                leaves(t.args[2], facts_with(facts, t.args[0], False))
            return
        outs.append((facts, t))
    leaves(t, frozenset())
    isroot = and_(eq0(lo[0]), num_eq(scale(h, 2), size))
    nodes = 0
    for facts, t in outs:
        root = decide(and_(*[num_eq(l, K(0)) for l in lo[:1]], num_eq(add(lo[0], scale(h, 2)), size)), facts)
        if t is NONE:
            empty = all(decide(mk('isnone', mk('sym', 'sub%d' % i), ty='bool'), facts) is True for i in range(8))
            if root is not False:
                ctx.violation('octree-step', loc, 'the whole world is converted to nothing') if root is True else ctx.undecided('octree-step', loc, 'result of an empty region')
                ok = False
            elif not empty:
                ctx.violation('octree-step', loc, 'a region is dropped although a sub-region is not empty')
                ok = False
            continue
        if root is True:
            cs = elems(t)
        else:
            cs = children_of(t) if t.op == 'obj' else 'bad'
        if cs == 'bad' and root is not True and t.op == 'seq':
            cs = 'bad'
        if cs is None or cs == 'bad':
            ctx.undecided('octree-step', loc, 'result %s' % show(t)[:100])
            ok = False
            continue
        if len(cs) != 8:
            ctx.violation('octree-step', loc, 'a region becomes %d cubes instead of 8' % len(cs))
            ok = False
            continue
        nodes += 1
        for num, c in enumerate(cs):
            want = mk('sym', 'sub%d' % idx[num])
            for present in (True, False):
                fs = facts_with(facts, mk('isnone', want, ty='bool'), not present)
                if decide(mk('isnone', want, ty='bool'), facts) is present:
                    continue
                got = pick(c, fs)
                if got is None or opaque_leaf(got):
                    ctx.undecided('octree-step', loc, 'child %d: %s' % (num, show(c)[:100]))
                    ok = False
                elif present:
                    if not (got.op == 'sym' and got.args[0] == want.args[0]):
                        ctx.violation('octree-step', loc, 'child %d is %s instead of the cube of its sub-region' % (num, 'that of another sub-region' if got.op == 'sym' else show(got)[:60]))
                        return I
                elif got is NONE:
                    ctx.violation('octree-step', loc, 'child %d of an empty sub-region is missing' % num)
                    return I
                elif not is_empty_leaf(got):
                    if got.op == 'sym' or is_empty_leaf(got) is False:
                        ctx.violation('octree-step', loc, 'child %d of an empty sub-region is not an empty cube' % num)
                        return I
                    ctx.undecided('octree-step', loc, 'child %d: %s' % (num, show(got)[:100]))
                    ok = False
    if nodes == 0:
        ctx.undecided('octree-step', loc, 'no inner node is made')
    elif ok:
        ctx.ok('octree-step')
        ctx.stat('step_results', len(outs))
    return I


def pick(t, facts):
    while t.op == 'ite':
        d = decide(t.args[0], facts)
        if d is None:
            return None
        t = t.args[1] if d else t.args[2]
    return t


# ---------------------------------------------------------------- point store
def store(ctx):
    ctx.rule('each operation is evaluated on an arbitrary world and place; the resulting world, read at an arbitrary other place, must be the specified update, '
             'and the recorded bounds the old bounds extended by the place (one step from any state: holds for every sequence of operations)')

    def go():
        I = engine(ctx, {'ftypes': {('VoxelWorld', 'world'): WTY, **{('VoxelWorld', a + b): 'int' for a in AX for b in ('min', 'max')}, ('VoxelWorld', 'size'): 'int'}},
                   ('redeclipse', 'redeclipse.voxel', 'redeclipse.vector'))
        worldt = mk('sym', 'world', ty=WTY)
        data = I.sym('data', CUBE)
        p = [I.sym('p' + k, 'int') for k in AX]
        q = [I.sym('q' + k, 'int') for k in AX]

        def fresh():
            st = I.state()
            w = world(I, st, I.sym('size', 'int'))
            for a in AX:
                for b in ('min', 'max'):
                    I.setattr_(w, a + b, I.sym(a + b, 'int'), st, None)
            return st, w

        def arg(st, kind):
            if kind == 'p':
                return list(p)
            return [I.call(I.lookup('redeclipse.vector:' + kind), list(p), {}, st, None)]

        samep = and_(*[num_eq(a, b) for a, b in zip(p, q)])
        key = mk('tup', *q)
        old = ite(mk('has', worldt, key, ty='bool'), mk('get', worldt, key, ty=CUBE), NONE)

        def read(st, w, key_, loc, want, what):
            got = method(I, st, w, 'get_point', *q)
            if st.dead:
                ctx.violation(key_, loc, '%s: reading a place fails: %s' % (what, show(st.dead)[:80]))
                return
            judge(ctx, key_, loc, I.freeze(got, st), want, what)

        def bounds(st, w, key_, loc, what, put):
            for i, a in enumerate(AX):
                mn, mx = I.sym(a + 'min', 'int'), I.sym(a + 'max', 'int')
                wmin = ite(lt(p[i], mn), p[i], mn) if put else mn
                wmax = ite(lt(mx, p[i]), p[i], mx) if put else mx
                for b, want in (('min', wmin), ('max', wmax)):
                    got = I.getattr_(w, a + b, st, None, quiet=True)
                    if got is None:
                        ctx.undecided('%s/%s%s' % (key_, a, b), loc, 'no such bound')
                        continue
                    judge(ctx, '%s/%s%s' % (key_, a, b), loc, got, want, '%s: bound %s%s' % (what, a, b))

        st, w = fresh()
        read(st, w, 'get', loc_of(I, st, w, 'get_point'), old, 'reading')
        judge(ctx, 'get/unchanged', loc_of(I, st, w, 'get_point'), I.freeze(I.getattr_(w, 'world', st, None, quiet=True), st), worldt, 'reading leaves the world')
        for name, kinds in (('set_point', ('p',)), ('set_pointv', ('FineVector', 'CoarseVector'))):
            for kind in kinds:
                st, w = fresh()
                loc = loc_of(I, st, w, name)
                method(I, st, w, name, *(arg(st, kind) + [data]))
                k = '%s(%s)' % (name, kind)
                if st.dead:
                    ctx.violation(k, loc, 'storing fails: %s' % show(st.dead)[:80])
                    continue
                bounds(st, w, k, loc, 'storing a voxel', True)
                read(st, w, k, loc, ite(samep, I.freeze(data, st), old), 'after storing at p, reading at q')
        for name, kinds in (('del_point', ('p',)), ('del_pointv', ('FineVector', 'CoarseVector'))):
            for kind in kinds:
                st, w = fresh()
                loc = loc_of(I, st, w, name)
                method(I, st, w, name, *arg(st, kind))
                k = '%s(%s)' % (name, kind)
                if st.dead:
                    ctx.violation(k, loc, 'deleting fails: %s' % show(st.dead)[:80])
                    continue
                read(st, w, k, loc, ite(samep, NONE, old), 'after deleting at p, reading at q')
        # a new world is empty; its bounds enclose nothing
        st = I.state()
        w = world(I, st, I.sym('size', 'int'), contents=False)
        judge(ctx, 'new', LOC, I.freeze(method(I, st, w, 'get_point', *q), st), NONE, 'reading a new world')
        st = I.state()
        w = world(I, st, I.sym('size', 'int'), contents=False)
        method(I, st, w, 'set_point', *(p + [data]))
        inside = [le(K(0), c) for c in p] + [lt(c, I.sym('size', 'int')) for c in p]
        for i, a in enumerate(AX):
            for b in ('min', 'max'):
                got = I.getattr_(w, a + b, st, None, quiet=True)
                if got is None:
                    ctx.undecided('new/' + a + b, LOC, 'no such bound')
                    continue
                r = evalt.equivalent(got, p[i], inside)
                if r is None:
                    ctx.undecided('new/' + a + b, LOC, show(got)[:100])
                else:
                    ctx.require(r[0], 'new/' + a + b, LOC, 'after the first voxel the bound %s%s is %s' % (a, b, show(got)[:80]))
        # two worlds do not share their contents
        st = I.state()
        w1 = world(I, st, K(8), contents=False)
        w2 = world(I, st, K(8), contents=False)
        method(I, st, w1, 'set_point', *(p + [data]))
        judge(ctx, 'separate', LOC, I.freeze(method(I, st, w2, 'get_point', *p), st), NONE, 'reading a second world after storing in the first')
        return I
    return guarded(ctx, 'store', go)
