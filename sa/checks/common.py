"""Shared set-up for the checks."""
from ..model import Project, AnalysisError
from ..interp import Interp
from ..terms import *
from ..state import *
from ..tape import Tape


def engine(ctx, cfg=None, load=('redeclipse',)):
    p = Project(ctx.repo)
    I = Interp(p, cfg or {})
    for m in load:
        I.load(m)
    return I


def guarded(ctx, key, fn, *args):
    """run one part of a check; failures of the analysis itself are reported as undecided, never as a violation"""
    try:
        return fn(*args)
    except AnalysisError as e:
        ctx.undecided(key, e, 'anchor: %s' % e)
    except (RecursionError, MemoryError) as e:
        ctx.undecided(key, '-', 'analysis too deep: %s' % type(e).__name__)
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ctx.undecided(key, '%s:%d' % (tb.filename.split('/')[-1], tb.lineno), 'analysis failed: %s %s' % (type(e).__name__, str(e)[:200]))
    return None


def walk(effs, path=()):
    """all effects, with the conditions and loops above them"""
    for e in effs:
        yield e, path
        d = e.data
        if e.kind == 'if':
            yield from walk(d[1], path + (('if', d[0], True),))
            yield from walk(d[2], path + (('if', d[0], False),))
        elif e.kind == 'loop':
            yield from walk(d[1], path + (('loop', d[0]),))
        elif e.kind == 'try':
            for x in d:
                if isinstance(x, (list, tuple)):
                    yield from walk([y for y in x if hasattr(y, 'kind')], path + (('try',),))


def tops(effs):
    for e, _ in walk(effs):
        if e.kind == 'top':
            yield e
