"""Run analysis tasks in forked workers and merge their results.

One process per task, forked from the main thread (no helper threads, whose
forks could inherit a held lock)."""
import gc
import os
import pickle
import selectors
import signal
import sys
import time
import traceback
from .report import Ctx, known_findings


def _work(name, fn, pid, tier, seed):
    sys.setrecursionlimit(20000)
    c = Ctx(pid, tier, seed)
    try:
        fn(c)
        return name, c.dump(), None
    except Exception:
        return name, c.dump(), traceback.format_exc()


def _results(tasks, jobs, grace):
    """Yield the result of every task as it ends."""
    sel = selectors.DefaultSelector()
    todo = list(reversed(tasks))
    live = {}
    try:
        while todo or live:
            while todo and len(live) < jobs:
                t = todo.pop()
                r, w = os.pipe()
                sys.stdout.flush()
                sys.stderr.flush()
                p = os.fork()
                if p == 0:
                    code = 1
                    try:
                        signal.signal(signal.SIGINT, signal.SIG_DFL)
                        os.close(r)
                        data = pickle.dumps(_work(*t), pickle.HIGHEST_PROTOCOL)
                        with os.fdopen(w, 'wb') as f:
                            f.write(data)
                        code = 0
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        sys.stdout.flush()
                        sys.stderr.flush()
                        os._exit(code)
                os.close(w)
                live[r] = (p, t, bytearray())
                sel.register(r, selectors.EVENT_READ)
            for key, _ in sel.select(1.0):
                r = key.fd
                p, t, buf = live[r]
                data = os.read(r, 1 << 20)
                if data:
                    buf += data
                    continue
                sel.unregister(r)
                os.close(r)
                del live[r]
                os.waitpid(p, 0)
                try:
                    res = pickle.loads(bytes(buf))
                except Exception:
                    res = (t[0], None, 'the worker ended without a result')
                yield res
            if time.time() > grace and live:
                for r, (p, t, _) in list(live.items()):
                    yield (t[0], None, 'time limit')
                return
    finally:
        for r, (p, t, _) in live.items():
            os.kill(p, signal.SIGKILL)
            os.waitpid(p, 0)
            os.close(r)
        sel.close()


def run_tasks(ctx, tasks):
    """tasks: list of (name, fn(ctx))."""
    from . import interp
    limit = ctx.t0 + float(os.environ.get('SA_BUDGET', '1800' if ctx.thorough else '300'))
    interp.DEADLINE[0] = limit
    tl = [(n, f, ctx.pid, ctx.tier, ctx.seed) for n, f in tasks]
    jobs = int(os.environ.get('SA_JOBS', '8'))
    if jobs <= 1 or len(tasks) == 1:
        res = (_work(*t) for t in tl)
    else:
        gc.freeze()
        res = _results(tl, jobs, limit + 240)
    known = [k for k in known_findings() if k.get('property') == ctx.pid and k.get('status') == 'known']
    for name, d, err in res:
        if d is not None:
            ctx.merge(d)
        if err:
            # a failure of the analyser itself decides nothing
            ctx.undec('analyser error in %s: %s' % (name, err.strip().splitlines()[-1]))
            if os.environ.get('SA_DEBUG'):
                sys.stderr.write(err)
        if ctx.violations and not known:
            # one violation decides the property
            if hasattr(res, 'close'):
                res.close()
            break
