"""Work distribution over forked workers; every worker owns its explorer processes and compiler."""
import multiprocessing as mp, os, time, traceback
from . import common

_state = {}


def server(so, asan=False, nmon=1):
    from . import mon
    k = ("srv", os.getpid(), str(so), asan, nmon)
    if k not in _state: _state[k] = mon.Server(so, asan, nmon)
    return _state[k]


def _call(args):
    fn, item = args
    try:
        return item, fn(item), None
    except Exception:
        return item, None, traceback.format_exc()


def run(fn, items, chunk=8, left=None, nproc=None):
    """Yields (item, result) in any order. Raises CheckError on a harness exception."""
    items = list(items)
    n = min(nproc or common.NPROC, max(1, len(items)))
    ctx = mp.get_context("fork")
    with ctx.Pool(n) as pool:
        try:
            for item, res, err in pool.imap_unordered(_call, ((fn, i) for i in items), chunksize=max(1, min(chunk, len(items) // (n * 4) + 1))):
                if err: raise common.CheckError(err)
                yield item, res
                if left is not None and left() < 0:
                    return
        finally:
            pool.terminate()
            _cleanup()


def _cleanup():
    import glob, shutil
    for f in glob.glob(str(common.BUILD / ".err_*")):
        try:
            pid = int(f.rsplit("_", 1)[1])
            if not os.path.exists(f"/proc/{pid}"): os.unlink(f)
        except (OSError, ValueError): pass
