"""Byte-stream model: file handles, struct packing and parsing, and tape extraction."""
import re
import struct
from .terms import *
from .state import *
from .model import *
from .out import *
from . import builtins as B

NUMCODES = 'bBhHiIlLqQfd?'


def parse_fmt(fmt):
    """list of (code, size term) or None; fmt is a term"""
    if iskt(fmt, 'str', 'bytes'):
        s = kv(fmt)
        s = s.decode() if isinstance(s, bytes) else s
        order = '@'
        if s and s[0] in '<>=!@':
            order, s = s[0], s[1:]
        try:
            native = struct.calcsize(order + s)
            if native != struct.calcsize('<' + s):
                return None
        except struct.error:
            return None
        big = order in '>!'
        out = []
        for n, c in re.findall(r'(\d*)([a-zA-Z?])', s):
            if c in 'sp':
                out.append((c, K(int(n) if n else 1)))
            else:
                for _ in range(int(n) if n else 1):
                    out.append(('>' + c if big and struct.calcsize(c) > 1 else c, K(struct.calcsize('<' + c))))
        return out
    if fmt.op == 'cat' and len(fmt.args) in (2, 3):
        a = list(fmt.args)
        if iskt(a[0], 'str') and kv(a[0]) in '<>=!@':
            a = a[1:]
        if len(a) == 2 and a[0].op == 'str' and iskt(a[1], 'str') and kv(a[1]) == 's':
            return [('s', a[0].args[0])]
    return None


def fsize(parts):
    n = ZERO
    for c, s in parts:
        n = add(n, s)
    return n


class Tape:
    """installs the stream model into an Interp configuration"""

    def __init__(self):
        self.n = 0
        self.tok = {}       # token term -> (code, size)
        self.phis = {}

    def phi(self, c, x, y):
        k = (c, x, y)
        if k not in self.phis:
            self.phis[k] = mk('cur', len(self.phis) + 1, ty='int')
        r = self.phis[k]
        PHI[2][r] = (r, c, x, y)
        return r

    def cfg(self, base=None):
        c = dict(base or {})
        PHI[0] = self.phi
        e = dict(c.get('ext', {}))
        e.update({'gzip.open': self.open_, 'open': self.open_, 'io.open': self.open_, 'gzip.GzipFile': self.open_,
                  'struct.unpack': self.unpack, 'struct.unpack_from': self.unpack_from, 'struct.pack': self.pack,
                  'io.BytesIO': self.bytesio, 'int.from_bytes': self.from_bytes, 'struct.Struct': self.struct_,
                  'struct.iter_unpack': None, 'print': self.print_})
        e = {k: v for k, v in e.items() if v is not None}
        c['ext'] = e
        m = dict(c.get('method', {}))
        m.update({'read': self.m_read, 'write': self.m_write, 'close': self.m_close, 'writelines': self.m_writelines,
                  'pack': self.m_pack, 'unpack': self.m_unpack, 'flush': self.m_flush, 'getvalue': self.m_getvalue,
                  'tell': self.m_tell, 'seek': self.m_seek})
        c['method'] = m
        return c

    # -------------------------------------------------- handles
    def open_(self, I, args, kw, st, node):
        self.n += 1
        mode = args[1] if len(args) > 1 else kw.get('mode', K('rb'))
        path = args[0] if args else kw.get('filename', NONE)
        h = mk('file', self.n, I.freeze(path, st), mode)
        st.emit('open', (h,), I.loc(node))
        return h

    def bytesio(self, I, args, kw, st, node):
        self.n += 1
        if args:
            return mk('bio', self.n, I.freeze(args[0], st))
        return mk('membuf', self.n)

    def struct_(self, I, args, kw, st, node):
        return mk('structfmt', args[0])

    def print_(self, I, args, kw, st, node):
        h = kw.get('file')
        if h is None or not self.is_file(h) or not all(isk(a) or a.ty == 'str' for a in args):
            return None
        sep, end = kw.get('sep', K(' ')), kw.get('end', K('\n'))
        if not all(isk(a) for a in (sep, end) + tuple(args)):
            return None
        st.emit('write', (h, K((kv(sep) or '').join(str(kv(a)) for a in args) + (kv(end) if kv(end) is not None else '\n'))), I.loc(node))
        return NONE

    def is_file(self, b):
        return b.op in ('file', 'bio', 'membuf') or (b.op == 'sym' and b.args[0] == '$handle')

    def m_read(self, I, base, args, kw, st, node):
        if base.op not in ('file', 'bio'):
            return None
        if not args or args[0] is NONE or args[0] is K(-1):
            if base.op == 'bio':
                return base.args[1]
            return mk('filebytes', base, ty='bytes')
        self.n += 1
        # sequential chunk: cursor is the handle itself
        ch = mk('chunk', self.n, I.freeze(args[0], st), tuple(l.idx() for l in I.loopctx), ty='bytes')
        st.emit('chunk', (ch,), I.loc(node))
        return ch

    def m_write(self, I, base, args, kw, st, node):
        if not (self.is_file(base)):
            return None
        st.emit('write', (base, I.freeze(args[0], st)), I.loc(node))
        return mk('nwritten', ty='int')

    def m_writelines(self, I, base, args, kw, st, node):
        if not self.is_file(base):
            return None

        def body(v, x):
            x.emit('write', (base, I.freeze(v, x)), I.loc(node))
            return Leaf('fall', None, x)
        s2 = I.single(I.run_pieces(B.iter_pieces(I, args[0], st, node), st, body, node, None))
        if s2 is not st:
            st.become(s2)
        return NONE

    def m_close(self, I, base, args, kw, st, node):
        if not self.is_file(base):
            return None
        st.emit('close', (base,), I.loc(node))
        return NONE

    def m_flush(self, I, base, args, kw, st, node):
        return NONE if self.is_file(base) else None

    def m_getvalue(self, I, base, args, kw, st, node):
        if base.op != 'membuf':
            return None
        return mk('membytes', base, ty='bytes')

    def m_tell(self, I, base, args, kw, st, node):
        return None

    def m_seek(self, I, base, args, kw, st, node):
        return None

    def m_pack(self, I, base, args, kw, st, node):
        if base.op != 'structfmt':
            return None
        return self.pack(I, [base.args[0]] + list(args), kw, st, node)

    def m_unpack(self, I, base, args, kw, st, node):
        if base.op != 'structfmt':
            return None
        return self.unpack(I, [base.args[0]] + list(args), kw, st, node)

    # -------------------------------------------------- parsing
    def source(self, d):
        """(buffer, lo, hi) for a slice of file contents"""
        if d.op == 'sliceof' and d.args[0].op == 'filebytes' and d.args[3] is NONE:
            lo = ZERO if d.args[1] is NONE else d.args[1]
            return d.args[0], lo, d.args[2]
        if d.op == 'filebytes':
            return d, ZERO, None
        return None

    def token(self, I, code, size, st):
        self.n += 1
        ctx = tuple(l.idx() for l in I.loopctx)
        ty = {'f': 'float', 'd': 'float', 's': 'bytes', 'p': 'bytes', '?': 'bool'}.get(code.lstrip('>'), 'int')
        t = mk('rd', self.n, code, size, ctx, ty=ty)
        return t

    def emit_read(self, I, parts, src, st, node):
        toks = []
        vals = []
        for code, size in parts:
            c = code
            if code == 'c':
                t = self.token(I, 'B', size, st)
                vals.append(mk('byte', t, ty='bytes'))
                c = 'B'
            elif code == 'x':
                t = self.token(I, 'B', size, st)
            else:
                t = self.token(I, code, size, st)
                vals.append(t)
            toks.append((c, size, t))
        st.emit('read', (tuple(toks), src), I.loc(node))
        return mk('tup', *vals)

    def unpack(self, I, args, kw, st, node):
        parts = parse_fmt(args[0])
        d = I.freeze(args[1], st)
        if parts is None:
            return None
        s = self.source(d)
        if s is not None:
            buf, lo, hi = s
            if hi is not None and sub(hi, lo) is not fsize(parts):
                st.emit('sizemismatch', (sub(hi, lo), fsize(parts)), I.loc(node))
            return self.emit_read(I, parts, (buf, lo, add(lo, fsize(parts))), st, node)
        if d.op == 'chunk':
            if d.args[1] is not fsize(parts):
                st.emit('sizemismatch', (d.args[1], fsize(parts)), I.loc(node))
            return self.emit_read(I, parts, (d, None, None), st, node)
        return None

    def unpack_from(self, I, args, kw, st, node):
        parts = parse_fmt(args[0])
        d = I.freeze(args[1], st)
        off = args[2] if len(args) > 2 else kw.get('offset', ZERO)
        if parts is None or d.op != 'filebytes':
            return None
        return self.emit_read(I, parts, (d, off, add(off, fsize(parts))), st, node)

    def from_bytes(self, I, args, kw, st, node):
        d = I.freeze(args[0], st)
        order = args[1] if len(args) > 1 else kw.get('byteorder', K('big'))
        signed = kw.get('signed', FALSE)
        s = self.source(d)
        if s is None and d.op != 'chunk':
            return None
        n = sub(s[2], s[1]) if s is not None else d.args[1]
        if not iskt(n, 'int') or kv(n) not in (1, 2, 4, 8) or not isk(order) or not isk(signed):
            return None
        code = {1: 'b', 2: 'h', 4: 'i', 8: 'q'}[kv(n)]
        if not kv(signed):
            code = code.upper()
        if kv(order) == 'big' and kv(n) > 1:
            code = '>' + code
        r = self.emit_read(I, [(code, n)], (s[0], s[1], s[2]) if s is not None else (d, None, None), st, node)
        return r.args[0]

    # -------------------------------------------------- packing
    def pack(self, I, args, kw, st, node):
        parts = parse_fmt(args[0])
        if any(a.op == 'star' for a in args):
            return mk('pack', *[I.freeze(a, st) for a in args], ty='bytes')
        if parts is not None:
            need = len([p for p in parts if p[0] != 'x'])
            if need != len(args) - 1:
                return I.fail(st, 'struct.error', 'pack expects %d items, got %d' % (need, len(args) - 1), node)
            for (c, s), v in zip([p for p in parts if p[0] != 'x'], args[1:]):
                if c in ('s', 'c', 'p'):
                    bad = is_numeric(v) or v is NONE or iskt(v, 'str') or v.ty == 'str'
                elif c in ('f', 'd'):
                    bad = B.is_strlike(v) or v is NONE
                else:
                    bad = B.is_strlike(v) or v is NONE or iskt(v, 'float') or v.ty == 'float'
                if bad or v.op in ('enumm', 'enum', 'tup') or (v.op == 'ref'):
                    return I.fail(st, 'struct.error', 'cannot pack %s as %r' % (show(I.freeze(v, st)), c), node)
        return mk('pack', *[I.freeze(a, st) for a in args], ty='bytes')


# ---------------------------------------------------------------- tapes
def writer_tokens(v):
    """tokens of one written bytes term: ('n', code, value) | ('raw', value) | ('lit', bytes)"""
    if iskt(v, 'bytes'):
        return [('lit', kv(v))]
    if v.op == 'cat':
        out = []
        for x in v.args:
            out.extend(writer_tokens(x))
        return out
    if v.op == 'byte':
        return [('n', 'B', v.args[0])]
    if v.op == 'tobytes' and iskt(v.args[1], 'int') and iskt(v.args[2], 'str'):
        code = {1: 'B', 2: 'H', 4: 'I', 8: 'Q'}.get(kv(v.args[1]))
        if code:
            return [('n', ('>' if kv(v.args[2]) == 'big' and kv(v.args[1]) > 1 else '') + code, v.args[0])]
    if v.op == 'pack':
        parts = parse_fmt(v.args[0])
        if parts is not None:
            out = []
            vals = []
            for k, x in enumerate(v.args[1:]):
                if x.op == 'star':
                    y = x.args[0]
                    if y.op == 'ite':
                        alt = [writer_tokens(mk('pack', *(v.args[:1 + k] + (mk('star', z),) + v.args[2 + k:]))) for z in y.args[1:]]
                        return [('ite', y.args[0], tuple(alt[0]), tuple(alt[1]))]
                    if y.op == 'tup':
                        vals.extend(y.args)
                        continue
                    if y.op == 'seq' and all(p[0] == 'i' for p in y.args[1]):
                        vals.extend(p[1] for p in y.args[1])
                        continue
                    return [('raw', v)]
                vals.append(x)
            if len(vals) != sum(1 for c, _ in parts if c != 'x'):
                return [('arity', v, len(vals))]
            for c, s in parts:
                if c == 'x':
                    out.append(('lit', b'\0'))
                    continue
                x = vals.pop(0)
                if c == 'c':
                    out.append(('n', 'B', char_value(x)))
                elif c == 's':
                    n = bytes_len(x)
                    d = sub(s, n)
                    if iskt(d, 'int') and kv(d) >= 0:
                        out.extend(writer_tokens(x) if kv(s if isk(s) else ZERO) or True else [])
                        if kv(d):
                            out.append(('lit', b'\0' * kv(d)))
                    else:
                        out.append(('sized', s, x))
                else:
                    out.append(('n', c, x))
            return out
    if v.op == 'ite':
        return [('ite', v.args[0], tuple(writer_tokens(v.args[1])), tuple(writer_tokens(v.args[2])))]
    return [('raw', v)]


def char_value(x):
    """numeric value of a one byte bytes term, None-marked when it may be longer than one byte"""
    if iskt(x, 'bytes') and len(kv(x)) == 1:
        return K(kv(x)[0])
    if x.op == 'byte':
        return x.args[0]
    if x.op == 'strm' and x.args[0] == 'encode':
        c = x.args[1]
        enc = x.args[2:-1] if len(x.args) > 2 else ()
        latin = any(iskt(e, 'str') and kv(e).lower().replace('-', '').replace('_', '') in ('latin1', 'iso88591') for e in enc)
        v = c.args[0] if c.op == 'chr' else mk('ord', c, ty='int')
        if iskt(c, 'str'):
            v = K(ord(kv(c)))
        return v if latin else mk('utf8', v, ty='int')
    if x.op == 'ite':
        return ite(x.args[0], char_value(x.args[1]), char_value(x.args[2]))
    return mk('charval', x, ty='int')


def bytes_len(v):
    if v.op == 'sliceof' and v.args[3] is NONE and v.args[0].op == 'rd' and v.args[0].args[1] == 's':
        n = v.args[0].args[2]
        lo = ZERO if v.args[1] is NONE else v.args[1]
        hi = v.args[2]
        if iskt(lo, 'int') and kv(lo) >= 0:
            if hi is NONE:
                return sub(n, lo)
            if iskt(hi, 'int') and kv(hi) < 0:
                return sub(add(n, hi), lo)
    if v.op == 'rd' and v.args[1] == 's':
        return v.args[2]
    if v.op == 'strm' and v.args[0] == 'encode':
        return mk('len', v, ty='int')
    return B.len_of_term(v)
