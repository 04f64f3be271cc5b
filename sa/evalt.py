"""Evaluation of the analyser's own terms under a finite valuation of their atoms.

Used to decide whether a conjunction of path facts is satisfiable over a finite domain (bytes) and whether two
syntactically different summaries denote the same function; it never touches code under analysis."""
import math
import zlib
import itertools
from fractions import Fraction
from .terms import *


class Unknown(Exception):
    pass


class TimeUp(Unknown):
    def __str__(self):
        return 'time is up'


class Missing(Unknown):
    """a dictionary has no such key (the valuation cannot occur where the term is evaluated)"""


INTERP = {'poly', 'le0', 'eq0', 'and', 'or', 'not', 'ite', 'floor', 'mod', '&', '|', '^', 'round', '//', '/', '%', 'tup', 'k', 'trunc',
          '<<', '>>', '**', 'mul'}


def flat_seq(x):
    """a container whose elements are all known"""
    if x.op == 'seq':
        return flat_pieces(x.args[1])
    if x.op in ('sorted', 'reversed') and isinstance(x.args[0], T):
        return flat_seq(x.args[0])
    return x.op == 'tup'


def flat_pieces(ps):
    for p in ps:
        if p[0] == 'if':
            if not flat_pieces(p[2]) or not flat_pieces(p[3]):
                return False
        elif p[0] == 'sp':
            if not isinstance(p[1], T) or not flat_seq(p[1]):
                return False
        elif p[0] != 'i' or not isinstance(p[1], T):
            return False
    return True


def interpreted(x):
    if x.op in INTERP:
        return True
    if x.op in ('seq', 'sorted', 'reversed'):
        return flat_seq(x)
    if x.op == 'len':
        return isinstance(x.args[0], T) and flat_seq(x.args[0])
    if x.op in ('has', 'get'):
        return flat_store(x.args[0])
    return x.op in ('enumm',)


def flat_store(x):
    """a dictionary whose unknown part is one symbolic input"""
    if not isinstance(x, T):
        return False
    if x.op == 'sym':
        return isinstance(x.ty, tuple) and x.ty[0] == 'dict'
    if x.op == 'without':
        return flat_store(x.args[0])
    if x.op == 'dic':
        return all(flat_store_piece(p) for p in x.args[0])
    if x.op == 'ite':
        return flat_store(x.args[1]) and flat_store(x.args[2])
    return False


def flat_store_piece(p):
    if p[0] == 'i':
        return all(isinstance(y, T) for y in p[1])
    if p[0] == 'sp':
        return flat_store(p[1])
    if p[0] == 'if':
        return all(flat_store_piece(q) for q in p[2] + p[3])
    return False


def plain(k):
    if isinstance(k, tuple):
        return tuple(plain(x) for x in k)
    if isinstance(k, (int, float, Fraction)):
        return Fraction(k)
    return k


ABSENT_ = ('absent',)


def lookup(d, key, env):
    """value of a dictionary at a key; symbolic dictionaries are uninterpreted functions of the key"""
    if d in env:
        return env[d].get(key, ABSENT_)
    if d.op == 'sym':
        key = plain(key)
        h = zlib.crc32(repr((d.args, key, env.get('$salt', 0))).encode())
        return ('stored', d.args[0], key) if (h >> 7) & 1 else ABSENT_
    if d.op == 'without':
        return ABSENT_ if ev(d.args[1], env) == key else lookup(d.args[0], key, env)
    if d.op == 'ite':
        return lookup(d.args[1] if ev(d.args[0], env) else d.args[2], key, env)
    if d.op != 'dic':
        raise Unknown('contents of %s' % d.op)
    return lookup_pieces(d.args[0], key, env, ABSENT_)


def lookup_pieces(ps, key, env, r):
    for p in ps:
        if p[0] == 'i':
            if ev(p[1][0], env) == key:
                r = ev(p[1][1], env)
        elif p[0] == 'sp':
            x = lookup(p[1], key, env)
            if x is not ABSENT_:
                r = x
        else:
            r = lookup_pieces(p[2] if ev(p[1], env) else p[3], key, env, r)
    return r


def ev_pieces(ps, env):
    out = []
    for p in ps:
        if p[0] == 'i':
            out.append(ev(p[1], env))
        elif p[0] == 'sp':
            out.extend(ev(p[1], env))
        elif p[0] == 'rep':
            raise Unknown('rep')
        else:
            out.extend(ev_pieces(p[2] if ev(p[1], env) else p[3], env))
    return out


def atoms(t, acc=None):
    """maximal uninterpreted subterms"""
    acc = {} if acc is None else acc
    seen = set()

    def store(d):
        if d.op == 'without':
            store(d.args[0])
            go(d.args[1])
        elif d.op == 'ite':
            go(d.args[0])
            store(d.args[1])
            store(d.args[2])
        elif d.op == 'dic':
            store_pieces(d.args[0])

    def store_pieces(ps):
        for p in ps:
            if p[0] == 'i':
                go(p[1])
            elif p[0] == 'sp':
                store(p[1])
            else:
                go(p[1])
                store_pieces(p[2])
                store_pieces(p[3])

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
            return
        if not isinstance(x, T) or x in seen:
            return
        seen.add(x)
        if interpreted(x):
            if x.op in ('has', 'get'):
                store(x.args[0])
                go(x.args[1])
            elif x.op != 'enumm':
                for a in x.args:
                    go(a)
        elif x.op == 'eq' and all(isinstance(a, T) for a in x.args):
            for a in x.args:
                go(a)
        else:
            acc[x] = True
    go(t)
    return acc


def ev(t, env):
    if t in env:
        return env[t]
    op = t.op
    a = t.args
    if op == 'k':
        return a[1]
    if op == 'poly':
        s = Fraction(0)
        for mono, c in a[0]:
            m = Fraction(c)
            for x, e in mono:
                m *= Fraction(ev(x, env)) ** e
            s += m
        return s
    if op == 'le0':
        return ev(a[0], env) <= 0
    if op == 'eq0':
        return ev(a[0], env) == 0
    if op == 'not':
        return not ev(a[0], env)
    if op == 'and':
        return all(ev(x, env) for x in a)
    if op == 'or':
        return any(ev(x, env) for x in a)
    if op == 'ite':
        return ev(a[1], env) if ev(a[0], env) else ev(a[2], env)
    if op == 'floor':
        return math.floor(ev(a[0], env))
    if op == 'trunc':
        return math.trunc(ev(a[0], env))
    if op == 'round':
        return round(ev(a[0], env))
    if op == 'mod':
        return ev(a[0], env) % a[1]
    if op == '&':
        return int(ev(a[0], env)) & int(ev(a[1], env))
    if op == '|':
        return int(ev(a[0], env)) | int(ev(a[1], env))
    if op == '^':
        return int(ev(a[0], env)) ^ int(ev(a[1], env))
    if op in ('//', '/', '%'):
        x, y = ev(a[0], env), ev(a[1], env)
        if y == 0:
            raise Unknown('division by zero')
        return x // y if op == '//' else (Fraction(x) / Fraction(y) if op == '/' else x % y)
    if op == '<<':
        return int(ev(a[0], env)) << int(ev(a[1], env))
    if op == '>>':
        return int(ev(a[0], env)) >> int(ev(a[1], env))
    if op == 'mul':
        return Fraction(ev(a[0], env)) * Fraction(ev(a[1], env))
    if op == 'tup':
        return tuple(ev(x, env) for x in a)
    if op == 'eq':
        return ev(a[0], env) == ev(a[1], env)
    if op == 'has':
        return lookup(a[0], ev(a[1], env), env) is not ABSENT_
    if op == 'get':
        r = lookup(a[0], ev(a[1], env), env)
        if r is ABSENT_:
            raise Missing('key')
        return r
    if op == 'enumm':
        return ('enum', a[0].qual, ev(a[2], env))
    if op == 'seq' and flat_seq(t):
        r = ev_pieces(a[1], env)
        return frozenset(r) if a[0] in ('set', 'frozenset') else tuple(r)
    if op == 'sorted' and len(a) == 1 or op == 'sorted' and all(x is NONE or x is FALSE for x in a[1:]):
        return tuple(sorted(ev(a[0], env)))
    if op == 'reversed':
        return tuple(reversed(ev(a[0], env)))
    if op == 'len':
        return len(ev(a[0], env))
    if op == 'obj':
        return ('obj', a[0]) + tuple((k, ev(v, env)) for k, v in a[1])
    if op == 'seq':
        r = ev_pieces(a[1], env)
        return frozenset(r) if a[0] in ('set', 'frozenset') else tuple(r)
    if op == 'dic':
        out = {}
        ev_store(a[0], env, out)
        return tuple(sorted(out.items(), key=repr))
    if op == 'attr' and isinstance(a[0], T):
        v = ev(a[0], env)
        if isinstance(v, tuple) and v[:1] == ('obj',):
            for p in v[2:]:
                if p[0] == a[1]:
                    return p[1]
    if op == 'item' and isinstance(a[0], T):
        v, k = ev(a[0], env), ev(a[1], env)
        if isinstance(v, tuple) and v[:1] != ('obj',) and isinstance(k, (int, Fraction)) and 0 <= k < len(v):
            return v[int(k)]
    if op == 'cls':
        return ('cls', a[0].qual)
    raise Unknown(op)


def ev_store(ps, env, out):
    for p in ps:
        if p[0] == 'i':
            out[ev(p[1][0], env)] = ev(p[1][1], env)
        elif p[0] == 'sp':
            if p[1] in env:
                out.update(env[p[1]])
            elif p[1].op == 'dic':
                ev_store(p[1].args[0], env, out)
            else:
                raise Unknown('contents of %s' % p[1].op)
        elif p[0] == 'if':
            ev_store(p[2] if ev(p[1], env) else p[3], env, out)
        else:
            raise Unknown(p[0])


SAMPLES = {'int': (0, 1, -1, 2, 3, 5, 7, 8, 12, 16, 31, 33, 64, 100, 255, -7, -9, 1000),
           'half': tuple(Fraction(x, 2) for x in (0, 2, 1, -1, 3, 5, 14, 15, 16, 17, -16, 33, 127, 200)),
           'num': tuple(Fraction(x, 4) for x in (0, 4, 1, -1, 3, 5, 8, 30, 32, -33, 401)),
           'bool': (False, True)}


def constants(*ts):
    """numbers the terms compare or compute with"""
    out, seen = set(), set()

    def num(v):
        if isinstance(v, (int, Fraction, float)) and not isinstance(v, bool) and abs(v) < 1 << 40:
            out.add(int(v))

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, T):
            if x in seen:
                return
            seen.add(x)
            if x.op == 'k':
                num(x.args[1])
            elif x.op == 'poly':
                cs = [c for m, c in x.args[0] if m]
                for m, c in x.args[0]:
                    if not m:
                        num(c)
                        for k in cs:
                            num(Fraction(c) / k)
                    else:
                        num(c)
                        go(m)
            elif interpreted(x) or x.op == 'eq':
                for y in x.args:
                    if x.op == 'mod' and not isinstance(y, T):
                        num(y)
                    go(y)
    for t in ts:
        go(t)
    out -= {0, 1, -1, 2, -2}
    return sorted(out, key=abs)[:10]


def critical(consts):
    r = []
    for c in consts:
        for v in (c - 1, c, c + 1, -c - 1, -c, -c + 1):
            if v not in r:
                r.append(v)
    return r


def domain(x, dom=None, crit=()):
    d = domain0(x, dom)
    if crit and not isinstance(d, range) and x.ty in ('int', 'half', 'num', 'float', None) and not isinstance(d[0], str):
        lo = 0 if (x.op == 'len' or x.op == 'rd' and x.args[1].lstrip('>') in 'HIBQ') else None
        hi = 65535 if x.op == 'rd' and x.args[1].lstrip('>') == 'H' else None
        extra = [v for v in crit if v not in d and (lo is None or v >= lo) and (hi is None or v <= hi)]
        if x.ty in ('half', 'num', 'float'):
            extra += [v + Fraction(1, 2) for v in extra]
        d = tuple(d) + tuple(extra)
    return d


def domain0(x, dom=None):
    if dom is not None:
        d = dom(x)
        if d is not None:
            return d
    if x.ty in ('bool',):
        return SAMPLES['bool']
    if x.ty in ('int', 'half'):
        return SAMPLES[x.ty]
    if x.ty in ('num', 'float'):
        return SAMPLES['num']
    return ('@%d' % x.sid, '@other')


def valuations(ats, dom=None, limit=20000, crit=()):
    """exhaustive over declared finite domains when small, otherwise a fixed pseudo-random sample"""
    ats = list(ats)
    ds = [domain(x, dom, crit) for x in ats]
    n = 1
    for d in ds:
        n *= len(d)
        if n > limit:
            break
    if n <= limit:
        for vs in itertools.product(*ds):
            yield dict(zip(ats, vs))
        return
    seed = 12345
    for k in range(limit // 4):
        env = {}
        for x, d in zip(ats, ds):
            seed = (seed * 1103515245 + 12345) & 0x7fffffff
            env[x] = d[(seed >> 8) % len(d)]
        yield env


def satisfiable(facts, dom=None, limit=20000):
    """True / False(no valuation found over the domains) ; grouped by shared atoms"""
    facts = list(facts)
    groups = []
    for f in facts:
        a = set(atoms(f))
        merged = [f]
        rest = []
        for fs, at in groups:
            if at & a:
                merged.extend(fs)
                a |= at
            else:
                rest.append((fs, at))
        groups = rest + [(merged, a)]
    for fs, at in groups:
        ok = False
        for env in valuations(sorted(at), dom, limit, critical(constants(*fs))):
            try:
                if all(ev(f, env) for f in fs):
                    ok = True
                    break
            except (Unknown, TypeError, ValueError, OverflowError):
                ok = True
                break
        if not ok:
            return False
    return True


def equivalent(a, b, facts=(), dom=None, limit=6000):
    """None when undecidable, otherwise (equal?, witness)"""
    if a is b:
        return True, None
    at = set(atoms(a)) | set(atoms(b))
    for f in facts:
        at |= set(atoms(f))
    n = 0
    try:
        for env in valuations(sorted(at), dom, limit, critical(constants(a, b, *facts))):
            env['$salt'] = n % 5
            if not all(ev(f, env) for f in facts):
                continue
            n += 1
            try:
                x, y = ev(a, env), ev(b, env)
            except Missing:
                continue
            if x != y:
                return False, env
    except (Unknown, TypeError, ValueError, OverflowError):
        return None
    try:
        for env in guided((a, b) + tuple(facts), sorted(at), dom, critical(constants(a, b, *facts))):
            if not all(ev(f, env) for f in facts):
                continue
            n += 1
            env['$salt'] = n % 5
            try:
                if ev(a, env) != ev(b, env):
                    return False, env
            except Missing:
                continue
    except (Unknown, TypeError, ValueError, OverflowError):
        return None
    if n == 0:
        return None
    return True, None


def equations(ts):
    out, seen = [], set()

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            if x.op == 'eq0':
                out.append(x)
            if interpreted(x):
                for y in x.args:
                    go(y)
    for t in ts:
        go(t)
    return out


def guided(ts, ats, dom, crit, rounds=40):
    """valuations that lie on the surfaces the terms test for equality (random sampling would miss them)"""
    eqs = equations(ts)
    if not eqs or len(ats) > 60 or len(eqs) > 40:
        return
    ds = {x: domain(x, dom, crit) for x in ats}
    seed = 777
    for k in range(rounds):
        base = {}
        for x in ats:
            seed = (seed * 1103515245 + 12345) & 0x7fffffff
            base[x] = ds[x][(seed >> 8) % len(ds[x])]
        for leave in [None] + eqs:
            env = dict(base)
            fixed = set()
            for e in eqs:
                if e is leave:
                    continue
                solve(e, env, fixed, k)
            yield env


def solve(e, env, fixed, k):
    p = e.args[0]
    if p.op != 'poly':
        if p in env and p not in fixed:
            env[p] = 0
        return
    cand = []
    for mono, c in p.args[0]:
        if len(mono) == 1 and mono[0][1] == 1 and mono[0][0] in env and mono[0][0] not in fixed:
            cand.append((mono[0][0], c))
    if not cand:
        return
    v, c = cand[k % len(cand)]
    if v.ty not in ('int', 'half', 'num', 'float', None):
        return
    new = Fraction(env[v]) - Fraction(ev(p, env)) / Fraction(c)
    d = {'int': 1, 'half': 2}.get(v.ty, None)
    if d is not None and (new * d).denominator != 1:
        return
    env[v] = int(new) if new.denominator == 1 else new
    fixed.add(v)
