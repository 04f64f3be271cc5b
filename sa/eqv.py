"""Structural comparison of frozen values.  Yields (verdict, path, detail): 'same', 'diff' (a definite difference, with a witness
valuation of the symbolic inputs) or 'unk'."""
from . import evalt
from .terms import *


def inputs_only(t):
    """all atoms are declared symbolic inputs, so every valuation of them is reachable"""
    for a in evalt.atoms(t):
        if a.op not in ('sym',):
            return False
    return True


def is_num(t):
    return isnum(t) or is_numeric(t)


def cmp(a, b, path='', facts=()):
    if a is b:
        yield 'same', path, ''
        return
    if isinstance(a, T) and isinstance(b, T):
        if a.op == 'top' or b.op == 'top':
            yield 'unk', path, 'not analysable: %s' % (show(a if a.op == 'top' else b),)
            return
        if a.op == 'ite' and b.op == 'ite' and a.args[0] is b.args[0]:
            c = a.args[0]
            yield from cmp(a.args[1], b.args[1], path, tuple(facts) + (c,))
            yield from cmp(a.args[2], b.args[2], path, tuple(facts) + (not_(c),))
            return
        if a.op == 'ite' or b.op == 'ite' or is_num(a) and is_num(b):
            r = evalt.equivalent(a, b, facts)
            if r is None:
                yield 'unk', path, '%s vs %s' % (show(a)[:150], show(b)[:150])
            elif r[0]:
                yield 'same', path, ''
            elif inputs_only(a) and inputs_only(b) and all(inputs_only(f) for f in facts):
                yield 'diff', path, '%s instead of %s (e.g. for %s)' % (show(a)[:150], show(b)[:150], witness(r[1]))
            else:
                yield 'unk', path, '%s vs %s' % (show(a)[:150], show(b)[:150])
            return
        if a.op == b.op == 'k':
            if kv(a) == kv(b):
                yield 'same', path, ''
            else:
                yield 'diff', path, '%s instead of %s' % (show(a), show(b))
            return
        if a.op == b.op == 'obj':
            if a.args[0] != b.args[0]:
                yield 'kind', path, '%s instead of %s' % (a.args[0], b.args[0])
            fa, fb = dict(a.args[1]), dict(b.args[1])
            for k in sorted(set(fa) | set(fb)):
                if k not in fa:
                    yield 'diff', path + '.' + k, 'missing'
                elif k not in fb:
                    yield 'extra', path + '.' + k, 'unexpected'
                else:
                    yield from cmp(fa[k], fb[k], path + '.' + k, facts)
            return
        if a.op == b.op == 'seq' or a.op == b.op == 'dic':
            pa, pb = a.args[-1], b.args[-1]
            if all(p[0] == 'i' for p in pa) and all(p[0] == 'i' for p in pb):
                if len(pa) != len(pb):
                    yield 'diff', path, '%d elements instead of %d' % (len(pa), len(pb))
                    return
                for i, (x, y) in enumerate(zip(pa, pb)):
                    yield from cmp(x[1], y[1], '%s[%d]' % (path, i), facts)
                return
            yield 'unk', path, '%s vs %s' % (show(a)[:150], show(b)[:150])
            return
        if a.op == b.op == 'tup':
            if len(a.args) != len(b.args):
                yield 'diff', path, '%d elements instead of %d' % (len(a.args), len(b.args))
                return
            for i, (x, y) in enumerate(zip(a.args, b.args)):
                yield from cmp(x, y, '%s[%d]' % (path, i), facts)
            return
        if a.op == b.op == 'enumm' or a.op == b.op == 'cls' or a.op == b.op == 'fn':
            yield 'diff', path, '%s instead of %s' % (show(a), show(b))
            return
        if a.op in ('enum', 'enumm') and b.op in ('enum', 'enumm') and a.args[0] is b.args[0]:
            va = a.args[1] if a.op == 'enum' else a.args[2]
            vb = b.args[1] if b.op == 'enum' else b.args[2]
            yield from cmp(va, vb, path, facts)
            return
        if a.op == b.op == 'sym':
            yield 'diff', path, '%s instead of %s' % (show(a), show(b))
            return
        shapes = {'k': 'const', 'enum': 'enum', 'enumm': 'enum', 'seq': 'seq', 'dic': 'dic', 'obj': 'obj', 'tup': 'tup', 'cls': 'cls'}
        ka, kb = shapes.get(a.op, 'num' if is_num(a) else None), shapes.get(b.op, 'num' if is_num(b) else None)
        if isnum(a):
            ka = 'num'
        if isnum(b):
            kb = 'num'
        if ka and kb and ka != kb:
            yield 'diff', path, '%s instead of %s' % (show(a)[:150], show(b)[:150])
            return
        if {a.op, b.op} <= {'sym', 'k', 'enumm', 'tup', 'seq', 'obj'} and 'sym' in (a.op, b.op):
            yield 'diff', path, '%s instead of %s' % (show(a)[:150], show(b)[:150])
            return
        yield 'unk', path, '%s vs %s' % (show(a)[:150], show(b)[:150])
        return
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            yield from cmp(x, y, path, facts)
        return
    if a == b:
        yield 'same', path, ''
        return
    yield 'unk', path, '%r vs %r' % (a, b)


def witness(env):
    return ', '.join('%s=%s' % (show(k), v) for k, v in sorted((x for x in env.items() if isinstance(x[0], T)), key=lambda x: x[0].sid))[:200]


def judge(ctx, key, where, got, want, what, ignore=()):
    """one obligation: got must equal want"""
    bad = unk = None
    n = 0
    for v, p, d in cmp(got, want):
        n += 1
        if v == 'same' or v in ignore:
            continue
        if v in ('diff', 'kind', 'extra'):
            bad = bad or (p, d)
        else:
            unk = unk or (p, d)
    if bad:
        ctx.violation(key, where, '%s: %s %s' % (what, bad[0], bad[1]))
        return False
    if unk:
        ctx.undecided(key, where, '%s: %s %s' % (what, unk[0], unk[1]))
        return None
    ctx.ok(key)
    ctx.stat('values_compared', n)
    return True
