"""One forked process per work item: isolation of the term tables, a hard time limit and the cores of the machine."""
import os
import pickle
import select
import signal
import sys
import time
import traceback


def pmap(fn, items, jobs=8, limit=300, until=None):
    """[(ok, value or error text)] in the order of items"""
    out = [None] * len(items)
    todo = list(range(len(items)))[::-1]
    live = {}
    while todo or live:
        if until and todo and time.time() > until:
            for i in todo:
                out[i] = (False, "the time of this run is used up", "Timeout")
            todo = []
            continue
        while todo and len(live) < jobs:
            i = todo.pop()
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    try:
                        v = (True, fn(items[i]))
                    except BaseException as e:
                        v = (False, "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-6)), type(e).__name__)
                    b = pickle.dumps(v)
                    with os.fdopen(w, "wb") as f:
                        f.write(b)
                except BaseException:
                    code = 1
                os._exit(code)
            os.close(w)
            live[r] = (i, pid, time.time(), [])
        rs, _, _ = select.select(list(live), [], [], 1.0)
        for r in rs:
            i, pid, t0, buf = live[r]
            b = os.read(r, 1 << 20)
            if b:
                buf.append(b)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del live[r]
            try:
                out[i] = pickle.loads(b"".join(buf))
            except Exception:
                out[i] = (False, "worker ended without an answer", "Died")
        now = time.time()
        for r in list(live):
            i, pid, t0, buf = live[r]
            if now - t0 > limit or until and now > until + 30:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del live[r]
                out[i] = (False, "time limit of %d s" % limit, "Timeout")
    return out
