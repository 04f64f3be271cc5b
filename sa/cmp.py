"""Simulation of a byte stream consumer by a producer (or by a layout specification)."""
import struct
from .terms import *
from . import tape as TP
from . import evalt
from .tapecmp import *


class NoSync(Exception):
    pass


class Node:
    __slots__ = ('item', 'next', 'depth')

    def __init__(self, item, nxt):
        self.item, self.next = item, nxt
        self.depth = nxt.depth + 1 if nxt is not None else 1


def passed(x, stop):
    return (x.depth if x is not None else 0) < (stop.depth if stop is not None else 0)


def link(items, tail):
    for it in reversed(items):
        tail = Node(it, tail)
    return tail


def map_items(items, f):
    out = []
    for it in items:
        k = it[0]
        if k in ('n', 's', 'w', 'wt', 'rec'):
            out.append(tuple(f(x) if isinstance(x, T) else (tuple(f(y) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) and k == 'wt' else x)
                             for x in it))
        elif k == 'if':
            out.append(('if', f(it[1]), map_items(it[2], f), map_items(it[3], f), it[4]))
        elif k == 'loop':
            out.append(('loop', it[1], map_items(it[2], f), it[3], f(it[4]), it[5]))
        else:
            out.append(it)
    return tuple(out)


def has_tokens(items):
    for it in items:
        if it[0] in ('n', 's', 'w', 'wt', 'rec'):
            return True
        if it[0] == 'if' and (has_tokens(it[2]) or has_tokens(it[3])):
            return True
        if it[0] == 'loop' and has_tokens(it[2]):
            return True
    return False


def plain(c):
    return c.lstrip('<>=!@') if isinstance(c, str) else c


class Cmp:
    """side a: the consumer, side b: producer ('writer') or layout ('spec')"""

    def __init__(self, mode='writer', budget=4000, dontcare=None, refusal=(), on_rec=None):
        self.mode = mode
        self.lg = Logic()
        self.budget = budget
        self.dontcare = dontcare
        self.refusal = refusal
        self.matched = 0
        self.loops = 0
        self.splits = 0
        self.recs = 0
        self.rejects = 0
        self.distinct = False
        self.trace = []

    # ------------------------------------------------------------ helpers
    def bs(self, t, env):
        if not env or not isinstance(t, T):
            return t
        return subst(t, lambda x: env.get(x))

    def bad(self, why, la, lb, facts):
        if not self.lg.feasible(facts):
            return True
        raise Mismatch(why, la, lb, facts)

    def check(self, a, b, facts=frozenset()):
        if self.mode == 'writer':
            facts = raise_facts(a, facts)
        self.run(link(a, None), link(b, None), facts, {}, None, None)

    def entry(self, items, facts):
        return raise_facts(items, facts) if self.mode == 'writer' else facts

    # ------------------------------------------------------------ main
    def run(self, a, b, facts, env, sa, sb):
        while True:
            if a is sa and b is sb:
                return True
            if passed(a, sa) or passed(b, sb):
                raise NoSync()
            if b is not sb:
                ib = b.item
                if ib[0] == 'raise' and self.mode == 'writer':
                    return self.b_raise(a, ib, facts, sa)
            if a is not sa and a.item[0] == 'raise':
                return self.a_raise(a.item, b, sb, facts, env)
            if a is not sa and a.item[0] == 'if' and not (b is not sb and b.item[0] == 'raise'):
                r = self.branch('a', a, b, facts, env, sa, sb)
                if r is True:
                    return True
                a, b, facts = r
                continue
            if b is not sb and b.item[0] == 'w':
                toks = TP.writer_tokens(self.lg.simp(self.bs(b.item[1], env), facts))
                b = link(self.wtoks(toks, b.item[2]), b.next)
                continue
            if b is not sb and b.item[0] == 'if':
                r = self.branch('b', a, b, facts, env, sa, sb)
                if r is True:
                    return True
                a, b, facts = r
                continue
            if b is not sb and b.item[0] == 'mayraise':
                b = b.next
                continue
            if b is not sb and b.item[0] == 'reject':
                return self.bad('input that must be rejected is accepted: %s' % b.item[1], a.item[-1] if a is not sa and a else None, None, facts)
            if a is sa or b is sb:
                n = self.skip_empty(a, sa, facts, None)
                if n is not a:
                    a = n
                    continue
                n = self.skip_empty(b, sb, facts, env)
                if n is not b:
                    b = n
                    continue
                if sa is not None or sb is not None:
                    raise NoSync()
                if a is not sa:
                    return self.loopguard(a, facts, None) or self.bad('the reader consumes data here that the %s does not have' % self.mode, loc_of(a.item), None, facts)
                return self.loopguard(b, facts, env) or self.bad('the %s has data here that the reader does not consume' % self.mode, None, loc_of(b.item), facts)
            ia, ib = a.item, b.item
            if ia[0] == 'loop' or ib[0] == 'loop':
                r = self.loop(a, b, facts, env, sa, sb)
                if r is True:
                    return True
                a, b, facts = r
                continue
            if ia[0] == 'rec' or ib[0] == 'rec':
                if ia[0] != 'rec' or ib[0] != 'rec':
                    return self.bad('nested nodes on one side only', loc_of(ia), loc_of(ib), facts)
                self.recs += 1
                if self.mode == 'writer':
                    r = self.rec_args(ib, ia[3], facts, env)
                    if r is False:
                        return self.bad('the nested nodes written are not the ones read', loc_of(ia), loc_of(ib), facts)
                    if r is None:
                        raise Undecided('nested nodes are passed on in another form at %s' % (loc_of(ib),))
                a, b = a.next, b.next
                continue
            if self.mode == 'spec':
                r = self.spec_token(a, b, facts, env)
            else:
                r = self.token(a, b, facts, env)
            if r is True:
                return True
            if isinstance(r, T):      # undecided condition inside the value: split on it
                self.spend()
                for v in (True, False):
                    f = add_fact(facts, r, v)
                    if self.lg.sat(facts, r if v else not_(r)) is False:
                        continue
                    self.run(a, b, f, env, sa, sb)
                return True
            self.matched += 1
            a, b = r

    def spend(self):
        self.splits += 1
        if self.splits > self.budget:
            raise Undecided('too many path combinations')

    def wtoks(self, toks, loc):
        out = []
        for t in toks:
            if t[0] == 'ite':
                out.append(('if', t[1], self.wtoks(t[2], loc), self.wtoks(t[3], loc), loc))
            else:
                out.append(('wt', t, loc))
        return tuple(out)

    # ------------------------------------------------------------ exceptions
    def b_raise(self, a, ib, facts, sa):
        if not self.lg.feasible(facts):
            return True
        name = show(ib[1]) if isinstance(ib[1], T) else str(ib[1])
        if any(r in name for r in self.refusal) and a is not sa:
            self.rejects += 1
            return True
        return self.bad('the writer fails with %s %s on data the reader accepts' % (name, ib[2] if isinstance(ib[2], str) else ''), None, ib[3], facts)

    def a_raise(self, ia, b, sb, facts, env):
        if self.mode == 'writer':
            return True
        if not self.lg.feasible(facts):
            return True
        name = show(ia[1]) if isinstance(ia[1], T) else str(ia[1])
        if any(r in name for r in self.refusal):
            self.rejects += 1
            return True
        while b is not None and b.item[0] == 'if':
            d = self.lg.decide(self.cond('b', b, env, facts), facts)
            if d is None:
                if b is sb:
                    raise NoSync()
                break
            b = link(b.item[2] if d else b.item[3], b.next)
        if b is not None and b.item[0] in ('reject', 'mayraise'):
            self.rejects += 1
            return True
        return self.bad('valid data is rejected with %s' % name, ia[3], None, facts)

    # ------------------------------------------------------------ conditionals
    def cond(self, side, n, env, facts):
        c = n.item[1]
        if side == 'b':
            c = self.bs(c, env)
        return self.lg.simp(c, facts)

    def take(self, n, v, facts):
        items = n.item[2] if v else n.item[3]
        return link(items, n.next), self.entry(items, facts) if self.mode == 'writer' else facts

    def branch(self, side, a, b, facts, env, sa, sb):
        n = a if side == 'a' else b
        c = self.cond(side, n, env, facts)
        d = self.lg.decide(c, facts)
        if d is not None:
            m, f = self.take(n, d, facts) if side == 'a' else (link(n.item[2] if d else n.item[3], n.next), facts)
            f = add_fact(f, c, d)
            return (m, b, f) if side == 'a' else (a, m, f)
        ends = []
        if side == 'a':
            if b is not sb and b.item[0] in ('if', 'w', 'wt', 'n', 's', 'loop'):
                ends.append((a.next, b.next))
            ends.append((a.next, b))
        else:
            if a is not sa and a.item[0] in ('n', 's', 'loop'):
                ends.append((a.next, b.next))
            ends.append((a, b.next))
        self.spend()
        for ea, eb in ends:
            try:
                for v in (True, False):
                    f = add_fact(facts, c, v)
                    if self.lg.sat(facts, c if v else not_(c)) is False:
                        continue
                    if side == 'a':
                        m, f = self.take(a, v, f)
                        self.run(m, b, f, env, ea, eb)
                    else:
                        m = link(b.item[2] if v else b.item[3], b.next)
                        self.run(a, m, f, env, ea, eb)
                return ea, eb, (raise_facts((a.item,), facts) if side == 'a' and self.mode == 'spec' else facts)
            except NoSync:
                continue
        for v in (True, False):
            f = add_fact(facts, c, v)
            if self.lg.sat(facts, c if v else not_(c)) is False:
                continue
            if side == 'a':
                m, f = self.take(a, v, f)
                self.run(m, b, f, env, sa, sb)
            else:
                m = link(b.item[2] if v else b.item[3], b.next)
                self.run(a, m, f, env, sa, sb)
        return True

    # ------------------------------------------------------------ loops
    def count(self, it, env, facts):
        c = it[4]
        if env is not None:
            c = self.bs(c, env)
        return self.lg.simp(c, facts)

    def skip_empty(self, n, stop, facts, env):
        if n is stop or n.item[0] != 'loop':
            return n
        if not has_tokens(n.item[2]):
            return n.next
        c = self.count(n.item, env, facts)
        if iskt(c, 'int') and kv(c) <= 0:
            return n.next
        if self.lg.decide(le(ONE_, c), facts) is False:
            return n.next
        return n

    def loopguard(self, n, facts, env):
        if n.item[0] == 'loop':
            c = self.count(n.item, env, facts)
            s = self.lg.sat(facts, le(ONE_, c))
            if s is None and c.op == 'whilecount':
                return None
            if s is None:
                return None
            if s is False:
                return True
        return None

    def unroll(self, n, facts, env):
        c = self.count(n.item, env, facts)
        if iskt(c, 'int') and kv(c) <= 64:
            i = n.item[1].idx()
            out = []
            for k in range(max(0, kv(c))):
                kk = K(k)
                out.extend(map_items(n.item[2], lambda t: subst(t, lambda x: kk if x is i else None)))
            return link(tuple(out), n.next)
        return None

    def loop(self, a, b, facts, env, sa, sb):
        n = self.skip_empty(a, sa, facts, None)
        if n is not a:
            return n, b, facts
        n = self.skip_empty(b, sb, facts, env)
        if n is not b:
            return a, n, facts
        ia, ib = a.item, b.item
        if ia[0] == 'loop' and ib[0] == 'loop':
            ca, cb = self.count(ia, None, facts), self.count(ib, env, facts)
            r = self.same_count(ia, ib, ca, cb, facts, env)
            if r:
                self.loops += 1
                e2 = dict(env)
                e2[ib[1].idx()] = ia[1].idx()
                f2 = add_fact(facts, le(ZERO, ia[1].idx()), True)
                f2 = add_fact(f2, lt(ia[1].idx(), ca), True)
                if iskt(ca, 'int') and kv(ca) == 1:
                    pass
                self.run(link(ia[2], None), link(ib[2], None), self.entry(ia[2], f2), e2, None, None)
                return a.next, b.next, facts
            if r is False:
                return self.bad('a sequence is read %s times but the %s repeats it %s times' % (show(ca), self.mode, show(cb)), loc_of(ia), loc_of(ib), facts)
        if ia[0] == 'loop':
            m = self.unroll(a, facts, None)
            if m is not None:
                return m, b, facts
        if ib[0] == 'loop':
            m = self.unroll(b, facts, env)
            if m is not None:
                return a, m, facts
        # one sided: compare the first item of one iteration
        fa = self.first(ia, None, facts)
        fb = self.first(ib, env, facts)
        if fa is None or fb is None:
            raise Undecided('loops do not correspond at %s / %s' % (loc_of(ia), loc_of(ib)))
        try:
            if self.mode == 'spec':
                self.spec_token(Node(fa, None), Node(fb, None), facts, dict(env))
            else:
                self.token(Node(fa, None), Node(fb, None), facts, env)
        except Mismatch as m:
            raise Mismatch('one side repeats a sequence here, the other does not: ' + m.why, loc_of(ia), loc_of(ib), facts)
        raise Undecided('loops do not correspond at %s / %s' % (loc_of(ia), loc_of(ib)))

    def same_count(self, ia, ib, ca, cb, facts, env):
        if ca is cb:
            return True
        if 'whilecount' in (ca.op, cb.op):
            if self.mode == 'spec' and ib[5] is not None and callable(ib[5]):
                return ib[5](self, ia, ib, facts, env)
            return None
        if self.lg.decide(num_eq(ca, cb), facts) is True:
            return True
        r = evalt.equivalent(ca, cb, (), tok_domain)
        if r is None:
            return None
        if r[0] is False and self.lg.sat(facts, not_(num_eq(ca, cb))):
            return False
        return None if r[0] is False else True

    def first(self, it, env, facts):
        while it[0] == 'loop':
            c = self.count(it, env, facts)
            if self.lg.sat(facts, le(ONE_, c)) is not True and c.op != 'whilecount':
                return None
            i = it[1].idx()
            body = map_items(it[2], lambda t: subst(t, lambda x: ZERO if x is i else None))
            if not body:
                return None
            it = body[0]
            if it[0] == 'w':
                tk = self.wtoks(TP.writer_tokens(self.lg.simp(self.bs(it[1], env or {}), facts)), it[2])
                if not tk:
                    return None
                it = tk[0]
        return it if it[0] in ('n', 's', 'wt') else None

    # ------------------------------------------------------------ tokens
    def norm(self, t, facts):
        """apply index equalities known on this path; a table filled once per record has as many entries as records"""
        rep = {}
        t = subst(t, self.dictlen)
        for f in facts:
            if f.op == 'eq0':
                p = poly_of(f.args[0])
                mons = [(m, c) for m, c in p.items() if m]
                if len(mons) == 1 and len(mons[0][0]) == 1 and mons[0][0][0][1] == 1 and mons[0][0][0][0].op == 'idx':
                    v = -p.get((), 0) / mons[0][1]
                    if v == int(v):
                        rep[mons[0][0][0][0]] = K(int(v))
        return subst(t, lambda x: rep.get(x)) if rep else t

    def rec_args(self, ib, ret, facts, env):
        vals = [v for v in flatten_args(ib[2])]
        vals = [self.lg.simp(self.bs(v, env), facts) for v in vals]
        if any(v is ret for v in vals):
            return True
        m = [v for v in vals if mentions(v, ret)]
        if not m or any(reordered(v) for v in m):
            return False
        return None

    def dictlen(self, x):
        if x.op == 'len' and x.args[0].op == 'dic' and len(x.args[0].args) >= 1:
            ps = x.args[0].args[0]
            if isinstance(ps, tuple) and len(ps) == 1 and ps[0][0] == 'rep' and len(ps[0][2]) == 1 and ps[0][2][0][0] == 'i':
                self.distinct = True
                return ps[0][1].count if ps[0][1].kind == 'for' else None
        return None

    def veq(self, val, tok, facts, what, la, lb):
        """True when equal, a condition to split on, or raises"""
        val = self.norm(self.lg.simp(val, facts), facts)
        tok = self.norm(tok, facts)
        if val is tok:
            return None
        c = first_cond(val)
        if c is not None:
            return c
        if val.op == 'round' and val.args[0] is tok or val.op == 'float' and val.args[0] is tok:
            return None
        if val.op in ('enum', 'ref', 'inst', 'seq', 'dic', 'tup', 'k') and not isnum(val):
            return self.bad('%s: the value written is %s, not the number that was read' % (what, show(val)[:80]), la, lb, facts) and None
        if dropped(val, self.lg, facts):
            return self.bad('%s: records are left out of the table, %s were read' % (what, show(tok)[:60]), la, lb, facts) and None
        if val.op == 'item' and reordered(val.args[0]):
            return self.bad('%s: the values are written in another order than they were read' % what, la, lb, facts) and None
        r = evalt.equivalent(val, tok, [f for f in facts if set(evalt.atoms(f)) & (set(evalt.atoms(val)) | set(evalt.atoms(tok)))][:6], tok_domain)
        if r is None:
            r = evalt.equivalent(val, tok, (), tok_domain)
        if r is None and val.op != tok.op:
            pass
        if r is None:
            raise Undecided('%s: cannot compare %s with %s' % (what, show(val)[:100], show(tok)[:60]))
        if r[0]:
            return None
        if not all(x.op in ('rd', 'idx', 'sym') or x.op == 'len' and x.args[0].op == 'rd' for x in set(evalt.atoms(val))):
            raise Undecided('%s: cannot compare %s with %s' % (what, show(val)[:100], show(tok)[:60]))
        self.bad('%s: the value written is %s where %s was read' % (what, show(val)[:100], show(tok)[:60]), la, lb, facts)
        return None

    def token(self, a, b, facts, env):
        ia, ib = a.item, b.item
        la, lb = loc_of(ia), loc_of(ib)
        t = ib[1]
        if t[0] == 'arity':
            return self.bad('the writer packs %d values into a format with another number of fields' % t[2], la, lb, facts)
        if ia[0] == 'n':
            _, code, tok, _l = ia
            if t[0] == 'n':
                if plain(t[1]) != plain(code) or order(t[1]) != order(code):
                    return self.bad('a field is read as %r but written as %r' % (code, t[1]), la, lb, facts)
                val = self.bs(t[2], env)
                if self.dontcare is not None and self.dontcare(self, ia, a.next, val, facts):
                    return a.next, b.next
                if val.op in ('utf8', 'charval'):
                    r = evalt.equivalent(le(val.args[0], K(127)), TRUE, (), tok_domain) if val.op == 'utf8' else None
                    if r is None:
                        raise Undecided('byte written from text at %s' % (lb,))
                    if not r[0]:
                        return self.bad('a one byte field is written as encoded text, which takes two bytes from 128 on', la, lb, facts)
                    val = val.args[0]
                r = self.veq(val, tok, facts, 'field %r' % code, la, lb)
                if r is not None:
                    return r
                return a.next, b.next
            if t[0] == 'lit':
                n = struct.calcsize('<' + plain(code))
                if len(t[1]) < n:
                    raise Undecided('literal bytes shorter than the field at %s' % (lb,))
                val = struct.unpack(('>' if order(code) == '>' else '<') + plain(code), t[1][:n])[0]
                rest = t[1][n:]
                r = self.veq(K(val), tok, facts, 'field %r' % code, la, lb)
                if r is not None:
                    return r
                return a.next, (Node(('wt', ('lit', rest), lb), b.next) if rest else b.next)
            x = self.bs(t[2] if t[0] == 'sized' else t[1], env)
            n = self.bs(t[1], env) if t[0] == 'sized' else TP.bytes_len(x)
            if iskt(n, 'int'):
                if kv(n) != struct.calcsize('<' + plain(code)):
                    return self.bad('a %d byte field is read where %d bytes are written' % (struct.calcsize('<' + plain(code)), kv(n)), la, lb, facts)
            r = evalt.equivalent(n, K(struct.calcsize('<' + plain(code))), (), tok_domain)
            if r is not None and not r[0]:
                return self.bad('a fixed size field is read where text is written', la, lb, facts)
            raise Undecided('field written as raw bytes at %s' % (lb,))
        _, size, tok, _l = ia
        if t[0] == 'n':
            r = evalt.equivalent(size, K(struct.calcsize('<' + plain(t[1]))), (), tok_domain)
            if r is not None and not r[0]:
                return self.bad('text is read where a number is written', la, lb, facts)
            raise Undecided('text read where number is written at %s' % (lb,))
        if t[0] == 'lit' and not self.is_text(tok, K(t[1])):
            n = K(len(t[1]))
        elif t[0] == 'sized':
            n = self.bs(t[1], env)
        else:
            n = TP.bytes_len(self.bs(t[1], env)) if t[0] == 'raw' else K(len(t[1]))
        x = self.lg.simp(self.bs(t[2] if t[0] == 'sized' else (t[1] if t[0] == 'raw' else K(t[1])), env), facts)
        n = self.lg.simp(n, facts)
        size = self.lg.simp(size, facts)
        c = first_cond(x)
        if c is not None:
            return c
        x, tok = self.norm(x, facts), self.norm(tok, facts)
        if t[0] == 'raw' and b.next is not None and b.next.item[0] == 'wt' and b.next.item[1] == ('lit', b'\0') and stripped(x, tok):
            b = b.next
            n = add(n, K(1))
        d = sub(n, size)
        if not iskt(d, 'int') or kv(d) != 0:
            r = evalt.equivalent(n, size, (), tok_domain)
            if r is None or r[0] is False and not (iskt(d, 'int') or n.op in ('rd', 'poly', 'k')):
                raise Undecided('text of length %s read, length %s written at %s' % (show(size)[:60], show(n)[:60], lb))
            if not r[0]:
                return self.bad('text of length %s is read, but %s bytes are written' % (show(size)[:60], show(n)[:60]), la, lb, facts)
        if x is tok or stripped(x, tok):
            return a.next, b.next
        if known_value(x) and not mentions(x, tok):
            return self.bad('the text written (%s) is not the text that was read' % show(x)[:60], la, lb, facts)
        raise Undecided('text comparison %s / %s' % (show(x)[:80], show(tok)[:60]))

    def is_text(self, tok, x):
        return False

    def spec_token(self, a, b, facts, env):
        ia, ib = a.item, b.item
        la = loc_of(ia)
        if ib[0] != ia[0]:
            return self.bad('the format has %s here, the reader takes %s' % (kind(ib), kind(ia)), la, None, facts)
        if ia[0] == 'n':
            if plain(ia[1]) != plain(ib[1]) or order(ia[1]) != order(ib[1]):
                return self.bad('the format has a %r field (%s) here, the reader takes %r' % (ib[1], ib[2].args[0], ia[1]), la, None, facts)
            env[ib[2]] = ia[2]
            return a.next, b.next
        n = self.lg.simp(self.bs(ib[1], env), facts)
        size = self.lg.simp(ia[1], facts)
        d = sub(n, size)
        if not iskt(d, 'int') or kv(d) != 0:
            r = evalt.equivalent(n, size, (), tok_domain)
            if r is None:
                raise Undecided('text length %s / %s' % (show(n)[:60], show(size)[:60]))
            if not r[0]:
                return self.bad('the format has %s bytes of text (%s) here, the reader takes %s' % (show(n)[:60], ib[2].args[0], show(size)[:60]), la, None, facts)
        env[ib[2]] = ia[2]
        return a.next, b.next


def order(c):
    return '>' if isinstance(c, str) and c[:1] in '>!' and len(c.lstrip('<>=!@')) and c.lstrip('<>=!@') not in 'bBcx?' else '<'


def kind(it):
    return {'n': 'a number', 's': 'text', 'loop': 'a repeated part', 'rec': 'nested nodes'}.get(it[0], it[0])


def stripped(x, tok):
    """tok without its terminating NUL"""
    return x.op == 'sliceof' and x.args[0] is tok and (x.args[1] is ZERO or x.args[1] is NONE) and iskt(x.args[2], 'int') and kv(x.args[2]) == -1 and x.args[3] is NONE


def first_cond(t):
    if t.op == 'ite':
        return t.args[0]
    return None


def known_value(x):
    return x.op in ('k', 'rd') or x.op == 'sliceof' and x.args[0].op == 'rd'


ONE_ = K(1)


def loc_of(it):
    k = it[0]
    if k in ('if', 'rec'):
        return it[4]
    if k in ('raise', 'loop'):
        return it[3]
    return it[-1]


def flatten_args(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            if isinstance(y, tuple) and len(y) == 2 and isinstance(y[0], str):
                yield from flatten_args(y[1])
            else:
                yield from flatten_args(y)


def reordered(v):
    if v.op in ('sorted', 'reversed', 'setof', 'shuffled'):
        return True
    return v.op == 'sliceof' and (iskt(v.args[3], 'int') and kv(v.args[3]) != 1 or iskt(v.args[1], 'int') and kv(v.args[1]) != 0
                                  or v.args[2] is not NONE and isk(v.args[2]))


def dropped(val, lg, facts):
    """len of a table whose records are entered only under a condition that can fail"""
    if val.op != 'len' or val.args[0].op not in ('dic', 'seq'):
        return False
    ps = val.args[0].args[-1]
    if not (isinstance(ps, tuple) and len(ps) == 1 and ps[0][0] == 'rep'):
        return False
    inner = ps[0][2]
    if len(inner) == 1 and inner[0][0] == 'if':
        _, c, a, b = inner[0][:4]
        return (len(a) == 1 and not b and lg.sat(frozenset(), not_(c)) is True) or (len(b) == 1 and not a and lg.sat(frozenset(), c) is True)
    return False


def mentions(x, t):
    if x is t:
        return True
    seen = set()

    def go(y):
        if y is t:
            return True
        if isinstance(y, tuple):
            return any(go(z) for z in y)
        if isinstance(y, T):
            if y in seen:
                return False
            seen.add(y)
            return any(go(z) for z in y.args)
        return False
    return go(x)


def produced_items(items):
    """written data as stream items (for comparing a producer with a layout)"""
    out = []

    def toks(ts, loc):
        r = []
        for t in ts:
            if t[0] == 'ite':
                r.append(('if', t[1], tuple(toks(t[2], loc)), tuple(toks(t[3], loc)), loc))
            elif t[0] == 'n':
                r.append(('n', t[1], t[2], loc))
            elif t[0] == 'sized':
                r.append(('s', t[1], t[2], loc))
            elif t[0] == 'lit':
                if r and r[-1][0] == 's' and not t[1].strip(b'\0'):
                    p = r.pop()
                    r.append(('s', add(p[1], K(len(t[1]))), p[2], p[3]))
                else:
                    r.append(('s', K(len(t[1])), K(t[1]), loc))
            elif t[0] == 'raw' and t[1].op == 'pack' and any(y.op == 'star' for y in t[1].args[1:]):
                raise Undecided('written record of unknown shape at %s' % (loc,))
            elif t[0] == 'raw':
                r.append(('s', TP.bytes_len(t[1]), t[1], loc))
            else:
                raise Mismatch('values do not fit the record format', None, loc)
        return r
    for it in items:
        k = it[0]
        if k == 'w':
            new = toks(TP.writer_tokens(it[1]), it[2])
            for x in new:
                if x[0] == 's' and isinstance(x[2], T) and iskt(x[2], 'bytes') and not kv(x[2]).strip(b'\0') and out and out[-1][0] == 's':
                    p = out.pop()
                    out.append(('s', add(p[1], x[1]), p[2], p[3]))
                else:
                    out.append(x)
        elif k == 'if':
            out.append(('if', it[1], produced_items(it[2]), produced_items(it[3]), it[4]))
        elif k == 'loop':
            out.append(('loop', it[1], produced_items(it[2]), it[3], it[4], it[5]))
        else:
            out.append(it)
    return tuple(out)
