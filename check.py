#!/usr/bin/env python3
"""Static checks for hexylena/remapper: check.py PROPERTY [quick|thorough] [REPO]"""
import importlib
import os
import sys
import threading
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)


def main():
    from sa.report import Ctx, finish
    from sa.checks import CHECKS
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    repo = sys.argv[3] if len(sys.argv) > 3 else os.environ.get('VERIF_REPO', '/repo')
    mod, fn = CHECKS[pid].split(':')
    ctx = CTX[0] = Ctx(pid, tier, repo)
    interp = getattr(importlib.import_module('sa.checks.' + mod), fn)(ctx)
    return finish(ctx, interp)


def run():
    try:
        RC[0] = main()
    except SystemExit as e:
        RC[0] = e.code or 0
    except BaseException:
        import traceback
        traceback.print_exc()
        RC[0] = 2


def watch(t):
    """end obligations that take too long (they become undecided), and the check as a whole"""
    import ctypes
    from sa.evalt import TimeUp
    begin = since = time.time()
    n = -1
    while t.is_alive():
        t.join(0.5)
        now = time.time()
        c = CTX[0]
        if c is None:
            continue
        if len(c.obs) != n:
            n, since = len(c.obs), now
        elif now - since > (60 if c.tier == 'quick' else 600):
            ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(TimeUp))
            since = now
        if now - begin > (780 if c.tier == 'quick' else 4 * 3600) and t.is_alive():
            from sa.report import finish
            c.undecided('time', '-', 'the remaining obligations are left out, time is up')
            RC[0] = finish(c, None)
            return


RC = [2]
CTX = [None]
if __name__ == '__main__':
    t = threading.Thread(target=run)
    t.start()
    watch(t)
    sys.stdout.flush()
    os._exit(RC[0])
