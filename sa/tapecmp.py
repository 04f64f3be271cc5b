"""Comparison of stream effects: what a reader consumes against what a writer (or a layout specification) produces."""
from .terms import *
from .state import *
from . import tape as TP
from . import evalt


class Mismatch(Exception):
    def __init__(self, why, loc=None, loc2=None, facts=()):
        super().__init__(why)
        self.why, self.loc, self.loc2, self.facts = why, loc, loc2, facts


class Undecided(Exception):
    pass


# ---------------------------------------------------------------- stream items
def loop_count(lp):
    if lp.kind == 'for':
        return lp.count
    o = lp
    while o.origin is not None and o.origin is not o:
        o = o.origin
    return mk('whilecount', o.lid, ty='int')


def reader_items(effs):
    out = []
    for e in effs:
        k, d = e.kind, e.data
        if k == 'read':
            for code, size, tok in d[0]:
                out.append(('s', size, tok, e.loc) if code in ('s', 'p') else ('n', code, tok, e.loc))
        elif k == 'if':
            a, b = reader_items(d[1]), reader_items(d[2])
            if a or b:
                out.append(('if', d[0], a, b, e.loc))
        elif k == 'loop':
            b = reader_items(d[1])
            if b:
                out.append(('loop', d[0], b, e.loc, loop_count(d[0]), d[2]))
        elif k == 'try':
            raise Undecided('reading inside try at %s' % (e.loc,)) if any(reader_items([x]) for x in d[0]) else Undecided('try')
        elif k == 'rec':
            out.append(('rec', d[0], d[1], d[2], e.loc))
        elif k == 'raise':
            out.append(('raise', d[0], d[1] if len(d) > 1 else '', e.loc))
            break
        elif k == 'chunk':
            pass
        elif k == 'top':
            raise Undecided('unanalysed construct: %s at %s' % (show(d)[:120], e.loc))
    return tuple(out)


def writer_items(effs, handle):
    out = []
    for e in effs:
        k, d = e.kind, e.data
        if k == 'write':
            if d[0] is handle:
                out.append(('w', d[1], e.loc))
        elif k == 'if':
            a, b = writer_items(d[1], handle), writer_items(d[2], handle)
            if a or b:
                out.append(('if', d[0], a, b, e.loc))
        elif k == 'loop':
            b = writer_items(d[1], handle)
            if b:
                out.append(('loop', d[0], b, e.loc, loop_count(d[0]), d[2]))
        elif k == 'rec':
            out.append(('rec', d[0], d[1], d[2], e.loc))
        elif k == 'raise':
            out.append(('raise', d[0], d[1] if len(d) > 1 else '', e.loc))
            break
        elif k == 'try':
            b = writer_items(d[0], handle)
            if b:
                raise Undecided('writing inside try at %s' % (e.loc,))
        elif k == 'top':
            raise Undecided('unanalysed construct: %s at %s' % (show(d)[:120], e.loc))
    return tuple(out)


def always_raises(items):
    for it in items:
        if it[0] == 'raise':
            return True
        if it[0] == 'if' and always_raises(it[2]) and always_raises(it[3]):
            return True
    return False


def tok_domain(x):
    if x.op == 'rd':
        c = x.args[1].lstrip('>')
        if c == 'B':
            return range(256)
        if c == 'b':
            return range(-128, 128)
        if c == 'H':
            return (0, 1, 2, 3, 255, 256, 511, 512, 513, 0x7fff, 0x8000, 0x8001, 0xffff)
    if x.op == 'len':
        return (0, 1, 2, 5, 7, 300)
    return None


class Logic:
    """decisions about path conditions over stream tokens"""

    def __init__(self):
        self.cache = {}
        self.asked = 0

    def related(self, facts, c):
        at = set(evalt.atoms(c))
        fs = [(f, set(evalt.atoms(f))) for f in facts]
        out = set()
        grew = True
        while grew:
            grew = False
            for f, a in fs:
                if f not in out and a & at:
                    out.add(f)
                    if not a <= at:
                        at |= a
                        grew = True
        return out, at

    def points(self, fs, at):
        """exact finite domains for the atoms, or None"""
        doms = {}
        for x in at:
            d = tok_domain(x)
            if isinstance(d, range):
                doms[x] = d
            elif x.ty == 'bool':
                doms[x] = (False, True)
            else:
                doms[x] = None
        for x in [x for x in at if doms[x] is None]:
            pts = set()
            ok = [True]

            def go(t):
                if t.op in ('le0', 'eq0'):
                    p = poly_of(t.args[0])
                    mons = [(m, c) for m, c in p.items() if m]
                    if any(a is x for m, _ in mons for a, _e in m):
                        if len(mons) == 1 and len(mons[0][0]) == 1 and mons[0][0][0][1] == 1:
                            k = p.get((), 0)
                            v = -k / mons[0][1]
                            v = int(v) if v == int(v) else int(v // 1)
                            pts.update((v - 1, v, v + 1))
                        else:
                            ok[0] = False
                        return
                    if x in evalt.atoms(t):
                        ok[0] = False
                    return
                if t.op in ('and', 'or', 'not'):
                    for a in t.args:
                        go(a)
                    return
                if x in evalt.atoms(t):
                    ok[0] = False
            for f in fs:
                go(f)
            if not ok[0] or not pts:
                return None
            doms[x] = tuple(sorted(pts))
        n = 1
        for d in doms.values():
            n *= len(d)
            if n > 300000:
                return None
        return doms

    def sat(self, facts, c):
        """may facts and c hold together: True / False / None (not decided)"""
        key = (frozenset(facts), c)
        if key in self.cache:
            return self.cache[key]
        self.asked += 1
        cat = set(evalt.atoms(c))
        for small in ([f for f in facts if set(evalt.atoms(f)) <= cat],
                      [f for f in facts if set(evalt.atoms(f)) & cat and len(set(evalt.atoms(f))) <= 2]):
            fs = small + [c]
            at = set()
            for f in fs:
                at |= set(evalt.atoms(f))
            doms = self.points(fs, at)
            if doms is not None and self.enum(fs, doms) is False:
                self.cache[key] = False
                return False
        fs, at = self.related(facts, c)
        fs = list(fs) + [c]
        at = set()
        for f in fs:
            at |= set(evalt.atoms(f))
        doms = self.points(fs, at)
        r = None
        if doms is not None:
            r = self.enum(fs, doms)
        else:
            n = 0
            for env in evalt.valuations(sorted(at), tok_domain, 4000, evalt.critical(evalt.constants(*fs))):
                n += 1
                try:
                    if all(evalt.ev(f, env) for f in fs):
                        r = True
                        break
                except (evalt.Unknown, TypeError, ValueError, OverflowError):
                    break
        self.cache[key] = r
        return r

    def enum(self, fs, doms):
        order = sorted(doms, key=lambda x: len(doms[x]))
        fa = [(f, set(evalt.atoms(f))) for f in fs]

        def go(i, env, left):
            if i == len(order):
                return all(self._ev(f, env) for f, _ in left)
            x = order[i]
            have = set(order[:i + 1])
            now = [f for f, a in left if a <= have]
            rest = [(f, a) for f, a in left if not a <= have]
            for v in doms[x]:
                env[x] = v
                if all(self._ev(f, env) for f in now):
                    if go(i + 1, env, rest):
                        return True
            del env[x]
            return False
        try:
            return go(0, {}, fa)
        except (evalt.Unknown, TypeError, ValueError, OverflowError):
            return None

    def _ev(self, f, env):
        return evalt.ev(f, env)

    def decide(self, c, facts):
        d = decide(c, facts)
        if d is not None:
            return d
        if self.sat(facts, c) is False:
            return False
        if self.sat(facts, not_(c)) is False:
            return True
        return None

    def feasible(self, facts):
        for f in facts:
            if self.sat(facts - {f}, f) is False:
                return False
        return True

    def simp(self, t, facts):
        """resolve conditionals inside a term"""
        t = assume(t, facts)
        conds = set()
        seen = set()

        def go(x):
            if isinstance(x, tuple):
                for y in x:
                    go(y)
                return
            if not isinstance(x, T) or x in seen:
                return
            seen.add(x)
            if x.op == 'ite':
                conds.add(x.args[0])
            for a in x.args:
                go(a)
        go(t)
        extra = set()
        for c in conds:
            d = self.decide(c, facts)
            if d is not None:
                extra.add(c if d else not_(c))
        if extra:
            t = assume(t, frozenset(extra) | facts)
        return t


def add_fact(facts, c, v):
    return frozenset(facts_with(facts, c, v))


def noraise(items, depth=0):
    """condition under which a list is passed without an exception (loops: no condition taken)"""
    out = []
    for it in items:
        if it[0] == 'raise':
            return FALSE
        if it[0] == 'if':
            a, b = noraise(it[2], depth + 1), noraise(it[3], depth + 1)
            if a is TRUE and b is TRUE:
                continue
            out.append(or_(and_(it[1], a), and_(not_(it[1]), b)))
    c = and_(*out) if out else TRUE
    return c if c.size < 400 else TRUE


def raise_facts(items, facts):
    """conditions which hold whenever the whole list is passed without an exception"""
    for it in items:
        if it[0] == 'if':
            a, b = noraise(it[2]), noraise(it[3])
            if a is TRUE and b is TRUE:
                continue
            facts = add_fact(facts, or_(and_(it[1], a), and_(not_(it[1]), b)), True)
    return facts
