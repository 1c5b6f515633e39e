"""Parallel replays in forked workers."""
import multiprocessing as mp, os, signal, traceback

_F = None
def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)

def _call(x):
    try:
        return ("ok", _F(x))
    except BaseException:
        return ("err", traceback.format_exc())

def pmap(f, xs, workers=8):
    global _F
    _F = f
    ctx = mp.get_context("fork")
    with ctx.Pool(min(workers, max(1, len(xs))), _init) as p:
        rs = p.map(_call, xs, chunksize=1)
    for k, r in rs:
        if k == "err":
            raise RuntimeError("replay harness failed:\n" + r)
    return [r for _, r in rs]
