"""Contiguity of reading: every read starts where the previous one ended, on every path."""
from .terms import *
from . import evalt
from .tapecmp import Mismatch, Undecided, Logic, tok_domain, always_raises
from .cmp import mentions


class Chain:
    def __init__(self, buf_ok):
        self.buf_ok = buf_ok
        self.reads = 0
        self.loops = 0
        self.recs = 0
        self.notes = []
        self.positions = set()

    def same(self, a, b, what, loc):
        if a is b:
            return
        d = sub(a, b)
        if iskt(d, 'int') and kv(d) == 0:
            return
        if iskt(d, 'int'):
            raise Mismatch('%s: starts %d bytes %s the end of the previous field' % (what, abs(kv(d)), 'after' if kv(d) > 0 else 'before'), loc)
        at = set(evalt.atoms(d))
        if at and all(x.op in ('rd', 'idx', 'lv', 'cur') for x in at):
            r = evalt.equivalent(d, ZERO, (), tok_domain)
            if r is not None and not r[0]:
                raise Mismatch('%s: starts at %s, the previous field ended at %s' % (what, show(a)[:90], show(b)[:90]), loc)
        raise Undecided('%s at %s: position %s / %s' % (what, loc, show(a)[:100], show(b)[:100]))

    def walk(self, effs, pos):
        i = 0
        effs = list(effs)
        for k, e in enumerate(effs):
            d = e.data
            if e.kind == 'read':
                buf, lo, hi = d[1]
                if not self.buf_ok(buf):
                    continue
                self.reads += 1
                if pos is None:
                    pos = lo
                self.same(lo, pos, 'read', e.loc)
                pos = hi
            elif e.kind == 'sizemismatch':
                raise Mismatch('a field is taken from a slice of another size: %s' % show(d)[:120], e.loc)
            elif e.kind == 'if':
                pa, ra = self.sub(d[1], pos)
                pb, rb = self.sub(d[2], pos)
                if ra and rb:
                    return pos
                if ra:
                    pos = pb
                elif rb:
                    pos = pa
                elif pa is pb:
                    pos = pa
                else:
                    pos = ('fork', d[0], pa, pb)
                    j = next((x for x in effs[k + 1:k + 3] if x.kind == 'join'), None)
                    if j is None or not ({j.data[2], j.data[3]} == {pa, pb}):
                        pos = ite(d[0], pa, pb)
            elif e.kind == 'join':
                ph, c, x, y = d
                if isinstance(pos, tuple) and pos[0] == 'fork':
                    pos = ph
                elif ph is pos:
                    pass
                elif pos in (x, y):
                    pos = ph
                elif pos.op == 'ite' and pos is ite(c, x, y):
                    pos = ph
            elif e.kind == 'loop':
                self.loops += 1
                if not self.touches(d[1]):
                    continue
                if isinstance(pos, tuple):
                    raise Undecided('position unknown before the loop at %s' % (e.loc,))
                done = False
                for c in d[2]:
                    if len(c) > 4 and c[1] is pos and c[2] is not None:
                        end = self.walk(d[1], c[2])
                        if c[3] is not None:
                            self.same(c[3], end, 'end of a repetition', e.loc)
                        pos = c[4]
                        done = True
                        break
                if not done:
                    # an unchanged position: every repetition reads the same bytes
                    end = self.walk(d[1], pos)
                    if end is not pos:
                        raise Mismatch('repeated reads do not advance', e.loc)
            elif e.kind == 'rec':
                self.recs += 1
                if isinstance(pos, tuple):
                    raise Undecided('position unknown before recursion at %s' % (e.loc,))
                got = find_index(d[1], pos)
                if got is False:
                    raise Mismatch('nested nodes are not read from the current position', e.loc)
                aft = [t for t in d[3] if isinstance(t, T)]
                if len(aft) >= 1:
                    nm = [t for t in aft if t.op == 'after']
                    pos = self.after(effs[k + 1:], nm or aft, pos)
            elif e.kind == 'raise':
                return pos
            elif e.kind == 'try':
                pos = self.walk(d[0], pos)
        return pos

    def after(self, rest, cands, pos):
        if len(cands) == 1:
            return cands[0]
        for e in rest:
            for c in cands:
                if mentions(tuple(x for x in flat(e.data)), c):
                    return c
        return cands[0]

    def touches(self, effs):
        for e in effs:
            if e.kind == 'read' and self.buf_ok(e.data[1][0]):
                return True
            if e.kind == 'rec':
                return True
            if e.kind == 'if' and (self.touches(e.data[1]) or self.touches(e.data[2])):
                return True
            if e.kind in ('loop',) and self.touches(e.data[1]):
                return True
        return False

    def sub(self, effs, pos):
        r = any(e.kind == 'raise' for e in effs)
        return self.walk(effs, pos), r


def flat(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, (tuple, list)):
        for y in x:
            yield from flat(y)
    elif hasattr(x, 'data'):
        yield from flat(x.data)


def find_index(args, pos):
    """the recursion receives the position: True / False / None when no position is passed at all"""
    if mentions(tuple(flat(args)), pos):
        return True
    return False
