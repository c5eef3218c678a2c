"""Parallel execution of cases against the code in /repo."""
import multiprocessing
import os
import shutil
import sys
import tempfile
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)
warnings.filterwarnings("ignore")
import logging  # noqa: E402
logging.disable(logging.CRITICAL)

SCRATCH = None


def scratch_base():
    """One scratch directory per process."""
    global SCRATCH
    if SCRATCH is None or SCRATCH[0] != os.getpid():
        SCRATCH = (os.getpid(), tempfile.mkdtemp(prefix="ocflv_"))
    return SCRATCH[1]


class Dir:
    """Fresh scratch directory, removed afterwards."""

    def __enter__(self):
        self.d = tempfile.mkdtemp(dir=scratch_base())
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def _call(args):
    fn, x = args
    try:
        return ("ok", fn(x))
    except Exception:  # harness failure
        return ("err", traceback.format_exc())


def _end(_):
    import time
    time.sleep(0.05)
    if SCRATCH is not None and SCRATCH[0] == os.getpid():
        shutil.rmtree(SCRATCH[1], ignore_errors=True)


def pmap(fn, items, procs=8, chunk=None):
    """Ordered parallel map; raises on harness errors."""
    items = list(items)
    if not items:
        return []
    base = tempfile.mkdtemp(prefix="ocflv_")
    old = tempfile.tempdir
    tempfile.tempdir = base
    try:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(min(procs, len(items))) as pool:
            res = pool.map(_call, [(fn, x) for x in items], chunksize=chunk or max(1, min(50, len(items) // (procs * 4) or 1)))
    finally:
        tempfile.tempdir = old
        shutil.rmtree(base, ignore_errors=True)
    bad = [r for s, r in res if s == "err"]
    if bad:
        raise RuntimeError("harness error:\n" + bad[0])
    return [r for s, r in res]
