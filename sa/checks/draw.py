"""What a drawing operation does to the voxel world, as a list of cell stores and deletions."""
from .common import *

VW = 'redeclipse.voxel:VoxelWorld'
V = 'redeclipse.vector:'
O = 'redeclipse.vector.orientations:'
KIT = 'redeclipse.prefabs.construction_kit:ConstructionKitMixin'
COMPASS = ('EAST', 'NORTH', 'WEST', 'SOUTH')
# quarter turn k about the centre of the cell that starts at the origin: where the voxel (x, y) of an eastward shape goes
CELL_TURN = (lambda x, y: (x, y), lambda x, y: (7 - y, x), lambda x, y: (7 - x, 7 - y), lambda x, y: (y, 7 - x))
TURN = (lambda x, y: (x, y), lambda x, y: (-y, x), lambda x, y: (-x, -y), lambda x, y: (y, -x))


def record(name, n):
    """stand-in for a point operation of the voxel world (their own behaviour is the subject of V02)"""
    def h(I, args, kw, st, node):
        args = list(args[1:])
        names = ['x', 'y', 'z', 'data'][:n] if name in ('set_point', 'del_point') else ['xyz', 'data'][:n]
        for k in names[len(args):]:
            if k not in kw:
                return None
            args.append(kw[k])
        if name.endswith('v'):
            xyz = []
            o = st.obj(args[0])
            for i, k in enumerate('xyz'):
                v = I.getattr_(args[0], k, st, None, quiet=True) if getattr(o, 'cls', None) is not None else None
                if v is None:
                    v = I.B.getitem(I, args[0], K(i), st, node)
                xyz.append(v)
            args = xyz + args[1:]
        st.emit('cell', (name[:3],) + tuple(I.freeze(v, st) for v in args[:3]) + tuple((v, I.freeze(v, st)) for v in args[3:]), I.loc(node))
        return NONE
    return h


def world_intrinsics():
    return {VW + '.' + n: record(n, k) for n, k in (('set_point', 4), ('set_pointv', 2), ('del_point', 3), ('del_pointv', 1))}


def cells(effs):
    """(what, xyz, data, path, loc) of every store and deletion"""
    for e, path in walk(effs):
        if e.kind == 'cell':
            yield e.data[0], e.data[1:4], (e.data[4] if len(e.data) > 4 else None), path, e.loc
