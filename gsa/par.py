"""Ordered parallel map over forked workers (the facts are inherited, results are plain data)."""
import multiprocessing as mp, os, sys
_f = None


def _call(i):
    sys.setrecursionlimit(20000)
    return _f[0](_f[1][i])


def pmap(f, items, procs=8):
    global _f
    items = list(items)
    if os.environ.get("GSA_SERIAL") or len(items) < 2:
        return [f(x) for x in items]
    _f = (f, items)
    with mp.get_context("fork").Pool(procs) as p:
        return p.map(_call, range(len(items)), chunksize=1)
