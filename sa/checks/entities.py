"""Entities: attribute order and values, position scaling, and the dictionary form."""
import ast
from .common import *
from ..eqv import judge

MODS = ('redeclipse', 'redeclipse.entities', 'redeclipse.entities.model', 'redeclipse.entities.weapon', 'redeclipse.vector', 'redeclipse.enums')

# attributes of an entity of each kind, in the order of the map file (independent description)
TABLE = {
    'ET_WEAPON': ('type', 'flags', 'modes', 'muts', 'id'),
    'ET_PLAYERSTART': ('team', 'yaw', 'pitch', 'modes', 'muts', 'id'),
    'ET_AFFINITY': ('team', 'yaw', 'pitch', 'modes', 'muts', 'id'),
    'ET_MAPMODEL': ('type', 'yaw', 'pitch', 'roll', 'blend', 'scale', 'flags', 'colour', 'palette', 'palindex', 'spinyaw', 'spinpitch', 'spinroll'),
    'ET_SUNLIGHT': ('yaw', 'pitch', 'red', 'green', 'blue', 'offset', 'flare', 'flarescale'),
    'ET_PUSHER': ('yaw', 'pitch', 'force', 'maxrad', 'minrad', 'type'),
    'ET_LIGHT': ('radius', 'red', 'green', 'blue', 'flare', 'flarescale'),
}
# which kind each constructor is for
KIND = {'PlayerSpawn': 'ET_PLAYERSTART', 'Sunlight': 'ET_SUNLIGHT', 'Light': 'ET_LIGHT', 'Pusher': 'ET_PUSHER', 'TeamFlag': 'ET_AFFINITY',
        'Weapon': 'ET_WEAPON', 'Grenade': 'ET_WEAPON', 'Shotgun': 'ET_WEAPON', 'MapModel': 'ET_MAPMODEL'}


def enumm(I, st, cls, name):
    return I.getattr_(I.lookup('redeclipse.enums:' + cls), name, st, None)


def classes(I):
    """entity classes of the entity modules, with their constructor's parameter names"""
    base = I.lookup('redeclipse.entities:Entity').args[0]
    out, seen = [], set()
    for m in MODS[1:4]:
        for k, v in sorted(I.base[I.p.modules[m].oid].fields.items()):
            if v.op == 'cls' and base in v.args[0].mro and v.args[0] is not base and v.args[0].qual not in seen:
                seen.add(v.args[0].qual)
                out.append(v)
    return out


def params(I, st, cls):
    init, _ = I.class_attr(cls.args[0], '__init__', st)
    a = init.args[0].node.args if hasattr(init.args[0], 'node') else None
    if a is None:
        raise AnalysisError('no constructor for %s' % cls.args[0].name)
    return [x.arg for x in list(a.args)[1:] + list(a.kwonlyargs)], init.args[0].loc


def vec(I, st, cls, p):
    return I.call(I.lookup('redeclipse.vector:' + cls), [I.sym(p + c, 'int') for c in 'xyz'], {}, st, None)


def kwargs(I, st, ps, pos):
    kw = {}
    for p in ps:
        if p == 'xyz':
            kw[p] = pos
        elif p not in ('links', 'reserved'):
            kw[p] = I.sym(p, 'int')
    return kw


def only(ctx, st, key, loc, what):
    if st.dead:
        ctx.violation(key, loc, '%s always fails: %s' % (what, show_dead(st)))
        return False
    return True


def show_dead(st):
    d = st.dead
    return show(d)[:160] if isinstance(d, T) else str(d)[:160]


def constructors(ctx):
    ctx.rule('abstract evaluation of every entity constructor on symbolic arguments: kind, attribute table, attribute values (value numbers of the '
             'arguments), stored position = 4 x fine position, fresh link and reserved lists')
    ctx.assumption('positions have integer components')

    def go():
        I = engine(ctx, {}, MODS)
        cs = classes(I)
        names = {c.args[0].name for c in cs}
        for k in KIND:
            if k not in names:
                ctx.undecided('anchor/' + k, '-', 'entity class %s not found' % k)
        for c in cs:
            guarded(ctx, 'ctor/' + c.args[0].name, one, ctx, I, c)
        guarded(ctx, 'ctor/Entity', generic, ctx, I)
        return I
    return guarded(ctx, 'constructors', go)


def kind_of(I, st, e):
    t = I.getattr_(e, 'type', st, None)
    return t.args[1] if t.op == 'enumm' else None


def one(ctx, I, c):
    name = c.args[0].name
    if name not in KIND:
        st = I.state()
    ps, loc = params(I, I.state(), c)
    for vc, f in (('FineVector', 4), ('CoarseVector', 32)):
        st = I.state()
        pos = vec(I, st, vc, 'p')
        kw = kwargs(I, st, ps, pos)
        e = I.call(c, [], kw, st, None)
        key = 'ctor/%s/%s' % (name, vc)
        if not only(ctx, st, key, loc, '%s(...) at a %s' % (name, vc)):
            continue
        kind = kind_of(I, st, e)
        if kind is None:
            ctx.undecided(key, loc, 'kind not determined')
            continue
        if name in KIND:
            ctx.require(kind == KIND[name], key + '/kind', loc, '%s creates an entity of kind %s instead of %s' % (name, kind, KIND[name]))
        if kind not in TABLE:
            ctx.undecided(key, loc, 'kind %s has no described attributes' % kind)
            continue
        table = TABLE[kind] if name not in KIND else TABLE[KIND[name]]
        ann = I.freeze(I.getattr_(e, 'attr_annotations', st, None), st)
        judge(ctx, key + '/names', loc, ann, mk('seq', 'list', tuple(('i', K(x)) for x in table)), '%s: attribute names' % name)
        want = []
        for x in table:
            if kind == 'ET_WEAPON' and x == 'type':
                want.append(mk('enum', I.lookup('redeclipse.enums:WeaponType').args[0], kw['type']) if 'type' in kw
                            else enumm(I, st, 'WeaponType', name.upper()))
            else:
                want.append(kw.get(x))
        if None in want:
            missing = [x for x, w in zip(table, want) if w is None]
            ctx.undecided(key + '/values', loc, 'no parameter for %s' % missing)
        else:
            judge(ctx, key + '/values', loc, I.freeze(I.getattr_(e, 'attrs', st, None), st), mk('seq', 'list', tuple(('i', x) for x in want)),
                  '%s: attribute values (in the order %s)' % (name, ' '.join(table)))
        if kind != 'ET_SUNLIGHT':
            o = I.getattr_(e, 'o', st, None)
            for ax in 'xyz':
                judge(ctx, '%s/position.%s' % (key, ax), loc, I.getattr_(o, ax, st, None), scale(I.sym('p' + ax, 'int'), f),
                      '%s at a %s: stored position %s' % (name, vc, ax))
        e2 = I.call(c, [], kw, st, None)
        for fld in ('links', 'reserved', 'attrs'):
            a, b = I.getattr_(e, fld, st, None), I.getattr_(e2, fld, st, None)
            if a.op == b.op == 'ref':
                ctx.require(a is not b, '%s/fresh-%s' % (key, fld), loc, 'two %s entities share one %s list' % (name, fld))
            else:
                ctx.undecided('%s/fresh-%s' % (key, fld), loc, show(a)[:100])
        judge(ctx, key + '/default-links', loc, I.freeze(I.getattr_(e, 'links', st, None), st), mk('seq', 'list', ()), '%s: default links' % name)
        judge(ctx, key + '/default-reserved', loc, I.freeze(I.getattr_(e, 'reserved', st, None), st),
              mk('seq', 'list', (('i', K(0)),) * 3), '%s: default reserved bytes' % name)
        if 'links' in ps and 'reserved' in ps:
            links, res = I.sym('links', ('list', 'int')), st.alloc(Seq('list', tuple(('i', I.sym('r%d' % i, 'int')) for i in range(3))))
            e3 = I.call(c, [], dict(kw, links=links, reserved=res), st, None)
            for fld, w in (('links', links), ('reserved', res)):
                judge(ctx, '%s/given-%s' % (key, fld), loc, I.freeze(I.getattr_(e3, fld, st, None), st), I.freeze(w, st), '%s: given %s' % (name, fld))


def generic_entity(I, st, kind, attrs=None):
    E = I.lookup('redeclipse.entities:Entity')
    v = I.call(I.lookup('redeclipse.vector:FineVector'), [div(I.sym('p' + c, 'num'), K(4)) for c in 'xyz'], {}, st, None)
    vals = attrs or [I.sym(x, 'int') for x in TABLE[kind]]
    return I.call(E, [], {'xyz': v, 'type': enumm(I, st, 'EntType', kind), 'attrs': st.alloc(Seq('list', tuple(('i', x) for x in vals))),
                          'links': I.sym('links', ('list', 'int')),
                          'reserved': st.alloc(Seq('list', tuple(('i', I.sym('r%d' % i, 'int')) for i in range(3))))}, st, None)


def generic(ctx, I):
    """the constructor used by the map reader"""
    for kind in sorted(TABLE):
        st = I.state()
        loc = 'redeclipse/entities/__init__.py'
        key = 'ctor/Entity/' + kind
        e = generic_entity(I, st, kind)
        if not only(ctx, st, key, loc, 'Entity of kind ' + kind):
            continue
        judge(ctx, key + '/names', loc, I.freeze(I.getattr_(e, 'attr_annotations', st, None), st),
              mk('seq', 'list', tuple(('i', K(x)) for x in TABLE[kind])), 'Entity of kind %s: attribute names' % kind)
        want = [I.sym(x, 'int') for x in TABLE[kind]]
        if kind == 'ET_WEAPON':
            want[0] = mk('enum', I.lookup('redeclipse.enums:WeaponType').args[0], want[0])
        judge(ctx, key + '/values', loc, I.freeze(I.getattr_(e, 'attrs', st, None), st), mk('seq', 'list', tuple(('i', x) for x in want)),
              'Entity of kind %s: attribute values' % kind)
        o = I.getattr_(e, 'o', st, None)
        for ax in 'xyz':
            judge(ctx, '%s/position.%s' % (key, ax), loc, I.getattr_(o, ax, st, None), I.sym('p' + ax, 'num'), 'Entity of kind %s: position %s' % (kind, ax))
        judge(ctx, key + '/links', loc, I.freeze(I.getattr_(e, 'links', st, None), st), I.freeze(I.sym('links', ('list', 'int')), st), 'links')


def roundtrip(ctx):
    ctx.rule('abstract composition: from_dict(to_dict(e)) is value-numbered and must have the value numbers of e in kind, position, attributes, links and '
             'reserved bytes; the dictionary holds only strings, numbers and lists')
    ctx.assumption('attribute values are integers (weapon types: members of the weapon enumeration)')

    def go():
        I = engine(ctx, {}, MODS)
        for c in classes(I):
            guarded(ctx, 'dict/' + c.args[0].name, dict_one, ctx, I, c)
        for kind in sorted(TABLE):
            guarded(ctx, 'dict/Entity/' + kind, dict_one, ctx, I, None, kind)
        return I
    return guarded(ctx, 'roundtrip', go)


def plain(v):
    """only JSON values inside"""
    if isinstance(v, tuple):
        return all(plain(x) for x in v)
    if not isinstance(v, T):
        return True
    if v.op in ('enum', 'enumm', 'obj', 'cls', 'fn', 'bm'):
        return False
    if v.op in ('dic', 'seq', 'tup', 'ite'):
        return all(plain(x) for x in v.args)
    return True


def dict_one(ctx, I, c, kind=None):
    st = I.state()
    if c is not None:
        name = c.args[0].name
        ps, loc = params(I, st, c)
        e = I.call(c, [], kwargs(I, st, ps, vec(I, st, 'FineVector', 'p')), st, None)
    else:
        name, loc = 'Entity/' + kind, 'redeclipse/entities/__init__.py'
        e = generic_entity(I, st, kind)
    key = 'dict/' + name
    if not only(ctx, st, key, loc, '%s(...)' % name):
        return
    d = I.call(I.getattr_(e, 'to_dict', st, None), [], {}, st, None)
    if not only(ctx, st, key + '/to_dict', loc, 'to_dict of %s' % name):
        return
    fd = I.freeze(d, st)
    if has_top(fd):
        ctx.undecided(key + '/plain', loc, show(fd)[:200])
    else:
        ctx.require(plain(fd), key + '/plain', loc, 'the dictionary of %s holds values that JSON cannot represent: %s' % (name, show(fd)[:200]))
    before = {f: I.freeze(I.getattr_(e, f, st, None), st) for f in ('type', 'o', 'attrs', 'links', 'reserved')}
    f = I.call(I.getattr_(I.lookup('redeclipse.entities:Entity'), 'from_dict', st, None), [d], {}, st, None)
    if not only(ctx, st, key + '/from_dict', loc, 'from_dict of the dictionary of %s' % name):
        return
    for fld in before:
        judge(ctx, '%s/%s' % (key, fld), loc, I.freeze(I.getattr_(f, fld, st, None), st), before[fld], '%s after to_dict/from_dict: %s' % (name, fld))
    for fld in before:
        judge(ctx, '%s/unchanged-%s' % (key, fld), loc, I.freeze(I.getattr_(e, fld, st, None), st), before[fld], '%s is changed by exporting: %s' % (name, fld))
