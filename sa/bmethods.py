"""Methods of built-in values."""
import string as _string
from .terms import *
from .state import *
from .model import *
from .out import *
from . import builtins as B
from . import bext as X


def call_method(I, base, name, args, kw, st, node):
    h = I.cfg.get('method', {}).get(name)
    if h is not None:
        r = h(I, base, args, kw, st, node)
        if r is not None:
            return r
    if base.op == 'ite' and not is_numeric(base):
        return I.fork(base.args[0], lambda x: call_method(I, base.args[1], name, args, kw, x, node),
                      lambda x: call_method(I, base.args[2], name, args, kw, x, node), st)
    o = st.obj(base)
    if isinstance(o, Dic):
        r = dict_method(I, base, o, name, args, kw, st, node)
    elif isinstance(o, Seq):
        r = (set_method if o.kind == 'set' else list_method)(I, base, o, name, args, kw, st, node)
    elif base.op == 'tup':
        r = tuple_method(I, base, name, args, kw, st, node)
    elif B.is_strlike(base):
        r = str_method(I, base, name, args, kw, st, node)
    elif base.op == 'ext' and base.args[0] == 'object':
        return NONE
    elif is_numeric(base):
        r = None
        if name == 'is_integer':
            return I.num_equal(floor(base), base)
        if name == 'to_bytes' and args and iskt(args[0], 'int'):
            order = args[1] if len(args) > 1 else kw.get('byteorder', K('big'))
            return mk('tobytes', base, args[0], order, ty='bytes')
    else:
        r = None
    if r is not None:
        return r
    if (isinstance(o, (Seq, Dic)) or isk(base) or base.op == 'tup'):
        py = {'list': list, 'set': set, 'tuple': tuple}.get(o.kind) if isinstance(o, Seq) else (
            dict if isinstance(o, Dic) else (tuple if base.op == 'tup' else type(kv(base))))
        if py is not None and not hasattr(py, name) and getattr(o, 'tag', None) is None and name != 'move_to_end':
            return I.fail(st, 'AttributeError', '%s has no method %s' % (py.__name__, name), node)
    if B.is_passive(base):
        return mk('passive')
    return I.opaque_call(mk('attr', I.freeze(base, st), name), args, kw, st, node)


def list_method(I, ref, o, name, args, kw, st, node):
    ps = o.pieces
    if name == 'append':
        B.mutate(I, ref, o.with_(ps + (('i', args[0]),)), st, 'append', args, node)
        return NONE
    if name == 'extend':
        B.seq_extend(I, ref, args[0], st, node)
        return NONE
    if name == 'insert':
        if iskt(args[0], 'int') and all(p[0] == 'i' for p in ps) or args[0] is ZERO:
            l = list(ps)
            l.insert(kv(args[0]), ('i', args[1]))
            new = tuple(l)
        else:
            new = (('sp', mk('inserted', I.freeze(ref, st), *[I.freeze(a, st) for a in args])),)
        B.mutate(I, ref, o.with_(new), st, 'insert', args, node)
        return NONE
    if name == 'pop':
        i = args[0] if args else K(-1)
        if iskt(i, 'int') and all(p[0] == 'i' for p in ps):
            if not -len(ps) <= kv(i) < len(ps):
                return I.fail(st, 'IndexError', 'pop from empty list', node)
            l = list(ps)
            v = l.pop(kv(i))[1]
            B.mutate(I, ref, o.with_(tuple(l)), st, 'pop', args, node)
            return v
        if i is K(-1) and ps and ps[-1][0] == 'i':
            B.mutate(I, ref, o.with_(ps[:-1]), st, 'pop', args, node)
            return ps[-1][1]
        v = B.getitem(I, ref, i, st, node)
        B.mutate(I, ref, o.with_((('sp', mk('popped', I.freeze(ref, st), I.freeze(i, st))),)), st, 'pop', args, node)
        return v
    if name == 'remove':
        if all(p[0] == 'i' for p in ps):
            out, done = [], FALSE
            for p in ps:
                c = and_(not_(done), I.equal(p[1], args[0], st, node))
                d = decide(c, st.pc)
                if d is True:
                    done = TRUE
                elif d is False:
                    out.append(p)
                else:
                    out.append(('if', c, (), (p,)))
                    done = or_(done, c)
            if done is FALSE:
                return I.fail(st, 'ValueError', 'list.remove(x): x not in list', node)
            B.mutate(I, ref, o.with_(tuple(out)), st, 'remove', args, node)
            return NONE
        B.mutate(I, ref, o.with_((('sp', mk('removed', I.freeze(ref, st), I.freeze(args[0], st))),)), st, 'remove', args, node)
        return NONE
    if name == 'clear':
        B.mutate(I, ref, o.with_(()), st, 'clear', args, node)
        return NONE
    if name == 'copy':
        return st.alloc(Seq(o.kind, ps, None, I.loc(node)))
    if name == 'sort':
        B.mutate(I, ref, o.with_(X.sort_pieces(I, ref, kw, st, node)), st, 'sort', args, node)
        return NONE
    if name == 'reverse':
        B.mutate(I, ref, o.with_(X.rev(I, ps, st)), st, 'reverse', args, node)
        return NONE
    if name == 'index':
        if all(p[0] == 'i' for p in ps):
            r, any_ = None, FALSE
            cs = []
            for i, p in enumerate(ps):
                c = I.equal(p[1], args[0], st, node)
                d = decide(c, st.pc)
                if d is False:
                    continue
                cs.append((TRUE if d else c, K(i)))
                if d:
                    break
            if not cs:
                return I.fail(st, 'ValueError', 'value is not in list', node)
            has = or_(*[c for c, _ in cs])
            if has is not TRUE:
                st.emit('if', (not_(has), (E('raise', (mk('exc', 'ValueError'), 'not in list'), I.loc(node)),), ()), I.loc(node))
                st.pc = facts_with(st.pc, has, True)
            r = cs[-1][1]
            for c, v in reversed(cs[:-1]):
                r = ite(c, v, r)
            return r
        return mk('indexof', I.freeze(ref, st), I.freeze(args[0], st), ty='int')
    if name == 'count':
        if all(p[0] == 'i' for p in ps):
            n = K(0)
            for p in ps:
                c = I.equal(p[1], args[0], st, node)
                d = decide(c, st.pc)
                n = add(n, ite(c, K(1), K(0)) if d is None else K(1 if d else 0))
            return n
        return mk('countof', I.freeze(ref, st), I.freeze(args[0], st), ty='int')
    if name in ('__len__',):
        return B.len_of(I, ref, st, node)
    if name == '__iter__':
        return ref
    if name == '__getitem__':
        return B.getitem(I, ref, args[0], st, node)
    return None


def set_method(I, ref, o, name, args, kw, st, node):
    if name == 'add':
        B.set_add(I, ref, args[0], st, node)
        return NONE
    if name == 'update':
        for a in args:
            B.seq_extend(I, ref, a, st, node)
        return NONE
    if name in ('discard', 'remove'):
        ps = o.pieces
        if all(p[0] == 'i' for p in ps):
            out = []
            for p in ps:
                c = I.equal(p[1], args[0], st, node)
                d = decide(c, st.pc)
                if d is True:
                    continue
                out.append(p if d is False else ('if', c, (), (p,)))
            new = tuple(out)
        else:
            new = (('sp', mk('removed', I.freeze(ref, st), I.freeze(args[0], st))),)
        if name == 'remove':
            has = B.contains(I, ref, args[0], st, node)
            if has is FALSE:
                return I.fail(st, 'KeyError', 'set.remove', node)
            if decide(has, st.pc) is None:
                st.emit('if', (not_(has), (E('raise', (mk('exc', 'KeyError'), 'set.remove'), I.loc(node)),), ()), I.loc(node))
        B.mutate(I, ref, o.with_(new), st, name, args, node)
        return NONE
    if name == 'copy':
        return st.alloc(Seq('set', o.pieces, None, I.loc(node)))
    if name == 'union':
        r = st.alloc(Seq('set', o.pieces, None, I.loc(node)))
        for a in args:
            B.seq_extend(I, r, a, st, node)
        return r
    if name in ('intersection', 'difference'):
        other = args[0]
        if not isinstance(st.obj(other), Seq):
            other = X._set(I, [other], {}, st, node)
        return B.seq_binop(I, 'Sub' if name == 'difference' else 'BitAnd', ref, other, st, node)
    if name == 'clear':
        B.mutate(I, ref, o.with_(()), st, 'clear', args, node)
        return NONE
    if name in ('isdisjoint', 'issubset', 'issuperset'):
        a, b = (ref, args[0]) if name != 'issuperset' else (args[0], ref)
        fl = B.flat(I, a, st, node)
        if fl is not None:
            cs = [I.contains(b, x, st, node) for x in fl]
            return not_(or_(*cs)) if name == 'isdisjoint' else and_(*cs)
        return mk(name, I.freeze(a, st), I.freeze(b, st), ty='bool')
    return None


def tuple_method(I, base, name, args, kw, st, node):
    if name == 'index':
        tmp = st.alloc(Seq('list', tuple(('i', x) for x in base.args)))
        return list_method(I, tmp, st.obj(tmp), 'index', args, kw, st, node)
    if name == 'count' and all(isk(x) for x in base.args) and isk(args[0]):
        return K(sum(1 for x in base.args if x is args[0]))
    return None


def dict_method(I, ref, o, name, args, kw, st, node):
    if name in ('keys', 'values', 'items'):
        ps = B.keys_pieces(o.pieces) if name == 'keys' else B.view_pieces(o.pieces, name)
        return st.alloc(Seq('list', ps, None, I.loc(node)))
    if name == 'get':
        return B.dict_get(I, ref, args[0], args[1] if len(args) > 1 else kw.get('default', NONE), st, node)
    if name == 'copy':
        return st.alloc(Dic(o.pieces, None, I.loc(node), o.default))
    if name == 'update':
        for a in args:
            B.dict_update(I, ref, a, st, node)
        for k, v in kw.items():
            B.setitem(I, ref, K(k), v, st, node)
        return NONE
    if name == 'setdefault':
        has = B.dict_has(I, ref, args[0], st, node)
        d = args[1] if len(args) > 1 else NONE

        def absent(x):
            B.setitem(I, ref, args[0], d, x, node)
            return d
        return I.fork(has, lambda x: B.dict_get(I, ref, args[0], d, x, node), absent, st)
    if name == 'pop':
        has = B.dict_has(I, ref, args[0], st, node)

        def present(x):
            v = B.dict_get(I, ref, args[0], None, x, node)
            B.delitem(I, ref, args[0], x, node)
            return v
        if len(args) > 1:
            return I.fork(has, present, lambda x: args[1], st)
        return present(st)
    if name == 'clear':
        B.mutate(I, ref, o.with_(()), st, 'clear', args, node)
        return NONE
    if name == '__contains__':
        return B.dict_has(I, ref, args[0], st, node)
    return None


FOLD = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'split', 'replace', 'startswith', 'endswith', 'title', 'encode', 'decode',
        'find', 'index', 'rsplit', 'partition', 'rpartition', 'zfill', 'ljust', 'rjust', 'capitalize', 'isdigit', 'count',
        'splitlines', 'isupper', 'islower', 'isalpha', 'hex', 'center', 'rfind', 'isalnum', 'swapcase', 'removeprefix', 'removesuffix'}
STRRET = {'lower': 'str', 'upper': 'str', 'strip': 'str', 'replace': 'str', 'encode': 'bytes', 'decode': 'str', 'title': 'str',
          'startswith': 'bool', 'endswith': 'bool', 'find': 'int', 'count': 'int', 'zfill': 'str', 'lstrip': 'str', 'rstrip': 'str'}


def str_method(I, base, name, args, kw, st, node):
    if name == 'join':
        ps = B.iter_pieces(I, args[0], st, node)
        if all(p[0] == 'i' for p in ps):
            out = []
            for i, p in enumerate(ps):
                if i:
                    out.append(base)
                if is_numeric(p[1]) or p[1] is NONE or p[1].op in ('ref', 'tup', 'enumm'):
                    return I.fail(st, 'TypeError', 'join of non-strings', node)
                out.append(p[1])
            return B.concat(out) if out else (K('') if not iskt(base, 'bytes') else K(b''))
        return mk('join', base, mk('seq', 'list', I.freeze_pieces(ps, st, ())), ty='bytes' if base.ty == 'bytes' or iskt(base, 'bytes') else 'str')
    if name == 'format':
        if isk(base):
            return str_format(I, kv(base), args, kw, st, node)
        return mk('format', base, tuple(I.freeze(a, st) for a in args), tuple((k, I.freeze(v, st)) for k, v in sorted(kw.items())), ty='str')
    if name in FOLD and isk(base) and all(isk(a) for a in args) and all(isk(v) for v in kw.values()):
        try:
            r = getattr(kv(base), name)(*[kv(a) for a in args], **{k: kv(v) for k, v in kw.items()})
        except Exception as e:
            return I.fail(st, type(e).__name__, str(e), node)
        if isinstance(r, list):
            return st.alloc(Seq('list', tuple(('i', K(x)) for x in r), None, I.loc(node)))
        return K(r)
    if name in FOLD:
        ty = STRRET.get(name)
        if ty == 'str' and (base.ty == 'bytes' or iskt(base, 'bytes')) and name != 'decode':
            ty = 'bytes'
        return mk('strm', name, I.freeze(base, st), *[I.freeze(a, st) for a in args],
                  tuple((k, I.freeze(v, st)) for k, v in sorted(kw.items())), ty=ty)
    return None


def str_format(I, tpl, args, kw, st, node):
    out = []
    auto = 0
    try:
        parts = list(_string.Formatter().parse(tpl))
    except ValueError as e:
        return I.fail(st, 'ValueError', str(e), node)
    for lit, field, spec, conv in parts:
        if lit:
            out.append(K(lit))
        if field is None:
            continue
        import _string as cs
        first, rest = cs.formatter_field_name_split(field)
        if first == '':
            first = auto
            auto += 1
        if isinstance(first, int):
            if first >= len(args):
                return I.fail(st, 'IndexError', 'format index %d' % first, node)
            v = args[first]
        else:
            if first not in kw:
                if '**' in kw:
                    v = B.dict_get(I, kw['**'], K(first), None, st, node) if isinstance(st.obj(kw['**']), Dic) else mk('kwopt', I.freeze(kw['**'], st), first)
                else:
                    return I.fail(st, 'KeyError', 'format key %s' % first, node)
            else:
                v = kw[first]
        for isattr, nm in rest:
            v = I.getattr_(v, nm, st, node) if isattr else I.getitem(v, K(nm), st, node)
            if st.dead:
                return top('dead')
        if conv:
            out.append(mk('fmt', I.freeze(v, st), '!' + conv + spec, ty='str'))
        else:
            out.append(B.to_str(I, v, st, spec, node))
    return B.concat(out) if out else K('')
