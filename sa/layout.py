"""The MAPZ layout, stated independently of the code under analysis (Red Eclipse map version 43, unlit)."""
from .terms import *
from .state import Loop
from . import evalt

_N = [10 ** 6]


def S(name, ty='int'):
    return mk('sp', name, ty=ty)


def n(code, name):
    return ('n', code, S(name), name)


def s(size, name):
    return ('s', size if isinstance(size, T) else K(size), S(name, 'bytes'), name)


def loop(count, *body, wh=None):
    _N[0] += 1
    lp = Loop(_N[0], 'for', count)
    return ('loop', lp, tuple(body), 'layout', count, wh)


def IF(c, a, b=()):
    return ('if', c, tuple(a), tuple(b), 'layout')


def eqk(x, k):
    return num_eq(x, K(k))


def switch(x, cases, default):
    r = tuple(default)
    for k, body in reversed(cases):
        r = (IF(eqk(x, k), body, r),)
    return r


REJECT = ('reject', 'unknown tag')


def header():
    names = ['version', 'headersize', 'worldsize', 'numents', 'numpvs', 'lightmaps', 'blendmap', 'numvslots', 'gamever', 'revision']
    return (s(4, 'magic'), ('mayraise', 'not a map file')) + tuple(n('i', x) for x in names) + (s(4, 'gameident'),)


def mapvars():
    ty = S('vartype')
    return (n('i', 'numvars'),
            loop(S('numvars'), n('i', 'varnamelen'), s(add(S('varnamelen'), K(1)), 'varname'), n('i', 'vartype'),
                 *switch(ty, [(0, (n('i', 'ival'),)), (1, (n('f', 'fval'),)),
                              (2, (n('i', 'slen'), s(add(S('slen'), K(1)), 'sval')))], (REJECT,))))


def textures():
    return (n('H', 'nummru'), loop(S('nummru'), n('H', 'mru')))


def ents():
    return (loop(S('numents'), n('f', 'x'), n('f', 'y'), n('f', 'z'), n('B', 'etype'), n('B', 'ra'), n('B', 'rb'), n('B', 'rc'),
                 n('i', 'numattr'), loop(S('numattr'), n('i', 'attr')), n('i', 'numlinks'), loop(S('numlinks'), n('i', 'link')),
                 ('mayraise', 'entity kinds')),)


def vslots(check):
    ch = S('changed')

    def bit(k, *body):
        return IF(eqk(bitand(ch, K(1 << k)), 0), (), body)
    tf = S('tflags')
    det = (n('i', 'prev'),
           bit(0, n('H', 'tflags'),
               loop(bitand(tf, K(0x7fff)), n('H', 'nlen'), IF(le(K(512), S('nlen')), (('mayraise', 'name too long'),), ()),
                    s(S('nlen'), 'pname'), n('f', 'v0'), n('f', 'v1'), n('f', 'v2'), n('f', 'v3'),
                    IF(eqk(bitand(tf, K(0x8000)), 0), (), (n('i', 'palette'), n('i', 'palindex'))))),
           bit(1, n('f', 'scale')), bit(2, n('i', 'rotation')), bit(3, n('i', 'offx'), n('i', 'offy')),
           bit(4, n('i', 'scrx'), n('i', 'scry')), bit(5, n('i', 'layer')), bit(6, n('f', 'alphaf'), n('f', 'alphab')),
           bit(7, n('f', 'cr'), n('f', 'cg'), n('f', 'cb')), bit(8, n('i', 'pal'), n('i', 'pali')), bit(9, n('f', 'coastscale')))
    return (loop(mk('whilecount', -1, ty='int'), n('i', 'changed'), IF(lt(ch, ZERO), (), det), wh=check),)


def node():
    t = S('tag')
    kind = bitand(t, K(7))

    def bit(x, k, body):
        return IF(eqk(bitand(x, K(k)), 0), (), body)
    surf = []
    for i in range(6):
        surf.append(bit(S('surfmask'), 1 << i, tuple(n('B', 's%d%s' % (i, q)) for q in 'abcd')))
    rest = tuple(n('H', 'tex%d' % i) for i in range(6)) + (
        bit(t, 0x40, (n('H', 'material'),)), bit(t, 0x80, (n('B', 'merged'),)),
        bit(t, 0x20, (n('B', 'surfmask'), n('B', 'totalverts')) + tuple(surf)))
    edges = tuple(n('B', 'edge%d' % i) for i in range(12))
    return (n('B', 'tag'),
            IF(eqk(kind, 0), (('rec', None, None, None, 'layout'),),
               switch(kind, [(1, ()), (2, ()), (3, edges), (4, ())], (REJECT,)) + rest))


def octree():
    out = []
    for i in range(8):
        out.extend(node())
    return tuple(out)


def mapz(check):
    return header() + mapvars() + textures() + ents() + vslots(check) + octree()


def vslot_progress(cmp, ia, ib, facts, env):
    """the slot sequence is read until the announced number of slots is covered (runs of unchanged slots count as their length)"""
    lp, cinfo = ia[1], ia[5]
    total = env.get(S('numvslots'))
    ch = None
    for it in ia[2]:
        if it[0] == 'n':
            ch = it[2]
            break
    if lp.kind == 'for':
        return False if lp.count is total else None
    for c in cinfo:
        if len(c) < 5 or c[1] is None or c[1].ty not in ('int', 'num'):
            continue
        name, init, head, new, fin = c
        if total is None or not (init is total or init is ZERO):
            continue
        if new is None or head is None or head not in set(evalt.atoms(new)) | {new}:
            continue
        if init is total:
            want, cond = ite(lt(ch, ZERO), add(head, ch), sub(head, K(1))), le(K(1), head)
        else:
            want, cond = ite(lt(ch, ZERO), sub(head, ch), add(head, K(1))), lt(head, total)
        r = new is want or (evalt.equivalent(new, want, (), None) or (None,))[0]
        if not r:
            return False if r is False else None
        if lp.cond is None:
            return None
        r = lp.cond is cond or (evalt.equivalent(lp.cond, cond, (), None) or (None,))[0]
        return True if r else (None if r is None else False)
    return None
