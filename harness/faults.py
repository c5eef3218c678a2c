"""Storage operations of the running process below watched directories:
numbered, observed, and made to fail.

Structural operations are seen through audit events, so it does not matter
which Python interface the code uses; data written through builtins.open or
io.open is seen write by write (unbuffered), and may be cut in the middle.
"""
import builtins
import errno
import io
import os
import sys

_real_open = builtins.open
_active = None
_installed = False

MUTATE = {"os.mkdir", "os.rmdir", "os.remove", "os.rename", "os.link", "os.symlink", "os.truncate", "shutil.move", "shutil.rmtree", "shutil.copyfile",
          "shutil.copytree"}
READ = {"os.listdir", "os.scandir"}


class Stop(BaseException):
    """The process ends here."""


def _hook(event, args):
    a = _active
    if a is None or a.busy:
        return
    if event == "open":
        path, mode, flags = args
        if not isinstance(path, (str, bytes, os.PathLike)):
            return
        w = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)) if isinstance(flags, int) else False
        a.op("open-w" if w else "open-r", path)
    elif event in MUTATE:
        a.op(event, args[0], args[1] if event in ("os.rename", "os.link", "shutil.move") else None)
    elif event in READ:
        if isinstance(args[0], (str, bytes, os.PathLike)):
            a.op(event, args[0])


def _install():
    global _installed
    if not _installed:
        sys.addaudithook(_hook)
        _installed = True


class WFile(io.FileIO):
    """File whose writes are storage operations."""

    def write(self, b):
        a = _active
        if a is None or a.busy or not a.inside(self.name):
            return super().write(b)
        b = bytes(b)
        h = len(b) // 2

        def half():
            if h:
                super(WFile, self).write(b[:h])
        cut = a.op("write", self.name, partial=half)
        if cut:
            super().write(b[h:])
            return len(b)
        return super().write(b)


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    a = _active
    if a is None or a.busy or not set(mode) & set("wxa+") or not isinstance(file, (str, bytes, os.PathLike)) or opener is not None or not a.inside(file):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    raw = WFile(os.fsdecode(file), mode.replace("b", "").replace("t", ""))
    if "+" in mode:
        f = io.BufferedRandom(raw)
    elif "b" in mode:
        return raw
    else:
        f = io.BufferedWriter(raw)
    return f if "b" in mode else io.TextIOWrapper(f, encoding, errors, newline)


class Watch:
    """with Watch(dirs, ...) as w: run; w.n operations were seen.

    fail: number of the operation that fails with an OSError (cut: after half
    of the data when it is a write); seen(k, kind): called before every
    mutating operation and in the middle of writes.
    """

    def __init__(self, dirs, writable, fail=None, cut=False, seen=None):
        self.dirs = [os.path.realpath(d) for d in dirs]
        self.writable = [os.path.realpath(d) for d in writable]
        self.fail, self.cut, self.seen = fail, cut, seen
        self.n = 0
        self.kinds = []
        self.busy = False
        self.hit = False

    def inside(self, path, dirs=None):
        p = os.path.normpath(os.path.join(os.getcwd(), os.fsdecode(path)))
        return any(p == d or p.startswith(d + "/") for d in (dirs or self.dirs))

    def op(self, kind, path, other=None, partial=None):
        """One operation; True if half of the data was written."""
        if not (self.inside(path) or (other is not None and self.inside(other))):
            return False
        k = self.n
        self.n += 1
        self.kinds.append(kind)
        if self.fail == k:
            self.hit = True
            if partial is not None and self.cut:
                self.busy = True
                try:
                    partial()
                finally:
                    self.busy = False
            raise OSError(errno.EIO if kind in ("open-r", "os.listdir", "os.scandir") else errno.ENOSPC, "storage operation failed", os.fsdecode(path))
        if self.seen is not None and kind not in ("open-r", "os.listdir", "os.scandir"):
            self.busy = True
            try:
                self.seen(k, kind)
                if partial is not None:
                    partial()
                    self.seen(k, kind + "-half")
                    return True
            finally:
                self.busy = False
        return False

    def __enter__(self):
        global _active
        _install()
        self.old = (builtins.open, io.open)
        builtins.open = io.open = _open
        _active = self
        return self

    def __exit__(self, *a):
        global _active
        _active = None
        builtins.open, io.open = self.old
