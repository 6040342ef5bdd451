"""A bounded pool: each worker has a memory ceiling and the whole map a time limit, so that a check always answers.

A job that runs out of either raises inside the worker (MemoryError, TimeLimit); the job functions report that as an
undecided obligation, and one that escapes them ends the check with an undecided obligation as well (never a hang)."""
import multiprocessing as mp
import os
import resource
import signal
import time

GB = 1 << 30


class TimeLimit(Exception):
    pass


def _mem():
    try:
        for l in open("/proc/meminfo"):
            if l.startswith("MemTotal"):
                return int(l.split()[1]) * 1024
    except OSError:
        pass
    return 32 * GB


def _alarm(*a):
    raise TimeLimit("the time limit of the check was reached")


_T = {}


def _init(cap, end):
    resource.setrlimit(resource.RLIMIT_AS, (cap, cap))
    signal.signal(signal.SIGALRM, _alarm)
    _T["end"] = end


def _call(a):
    fn, x = a
    signal.alarm(max(1, int(_T["end"] - time.time())))
    try:
        return ("ok", fn(x))
    except (MemoryError, TimeLimit) as e:
        return ("limit", "%s %s" % (type(e).__name__, e))
    finally:
        signal.alarm(0)


def pmap(fn, jobs, limit=700, n=None):
    n = n or max(1, min(8, os.cpu_count() or 8, len(jobs)))
    cap = max(3 * GB, int(_mem() * 0.9 / n))
    with mp.Pool(n, _init, (cap, time.time() + limit)) as pool:
        r = pool.map_async(_call, [(fn, j) for j in jobs], 1)
        try:
            out = r.get(limit + 60)
        except mp.TimeoutError:
            raise TimeLimit("Unmodelled: within the limits of the check: the time limit was reached (a worker ended)")
    for k, v in out:
        if k == "limit":
            raise TimeLimit("Unmodelled: within the limits of the check: " + v)
    return [v for k, v in out]
