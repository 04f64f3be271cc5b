"""Independent parts of a check, each in a process of its own; what they decide is collected in the order of the parts."""
import gc
import os
import pickle
import select
import signal
import time


class Note:
    """stands for the Ctx in a part: records what is decided"""

    def __init__(self, ctx):
        self.pid, self.tier, self.repo = ctx.pid, ctx.tier, ctx.repo
        self.thorough = ctx.thorough
        self.calls = []

    def require(self, cond, key, where, msg):
        self.calls.append(('require', (bool(cond), key, str(where), msg)))
        return cond

    def violation(self, key, where, msg, path=()):
        self.calls.append(('violation', (key, str(where), msg, [str(p) for p in path])))

    def undecided(self, key, where, msg):
        self.calls.append(('undecided', (key, str(where), str(msg))))

    def __getattr__(self, name):
        if name in ('ok', 'stat', 'rule', 'assumption'):
            return lambda *a: self.calls.append((name, a)) or None
        raise AttributeError(name)


def parallel(ctx, parts, workers=None, limit=300):
    """parts: (key, function of a Note)"""
    n = workers or max(2, min(8, os.cpu_count() or 2))
    left = list(enumerate(parts))[::-1]
    alive, got = {}, {}
    gc.collect()
    gc.freeze()
    try:
        while left or alive:
            while left and len(alive) < n:
                i, (key, fn) = left.pop()
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        gc.disable()
                        os.close(r)
                        c = Note(ctx)
                        try:
                            fn(c)
                        except BaseException as e:
                            c.undecided(key, '-', 'analysis failed: %s %s' % (type(e).__name__, str(e)[:200]))
                        with os.fdopen(w, 'wb') as h:
                            pickle.dump(c.calls, h)
                        code = 0
                    finally:
                        os._exit(code)
                os.close(w)
                alive[r] = (i, key, pid, time.time(), [])
            for r in select.select(list(alive), [], [], 0.2)[0]:
                b = os.read(r, 1 << 16)
                i, key, pid, t, buf = alive[r]
                if b:
                    buf.append(b)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del alive[r]
                try:
                    got[i] = pickle.loads(b''.join(buf))
                except Exception:
                    got[i] = [('undecided', (key, '-', 'the analysis of this part ended early'))]
                got[i] = put(ctx, got[i])
            for r, (i, key, pid, t, buf) in list(alive.items()):
                if time.time() - t > limit:
                    stop(r, pid)
                    del alive[r]
                    ctx.undecided(key, '-', 'time is up')
    finally:
        gc.unfreeze()
        for r, (i, key, pid, t, buf) in alive.items():
            stop(r, pid)


def put(ctx, calls):
    for name, a in calls:
        getattr(ctx, name)(*a)


def stop(r, pid):
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid, 0)
    os.close(r)
