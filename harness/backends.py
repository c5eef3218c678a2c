"""The same tree of bytes on different kinds of storage."""
import contextlib
import itertools
import os
import random
import zipfile

import runner  # noqa: F401
import scan
from fsspec.implementations.dirfs import DirFileSystem
from fsspec.implementations.local import LocalFileSystem
from fsspec.implementations.memory import MemoryFileSystem
from fsspec.implementations.zip import ZipFileSystem

KINDS = ["local", "reversed", "shuffled", "memory", "objects", "zip", "zipplain", "nested"]
_n = itertools.count()


def empty_dirs(t):
    return [d for d in t["dirs"] if not any(p.startswith(d + "/") for p in list(t["files"]) + t["dirs"])]


def suits(kind, t):
    """Can storage of this kind hold the tree."""
    if kind in ("objects", "zipplain"):
        return not empty_dirs(t)
    return True


def reorder(how, names, key):
    if how == "reversed":
        return list(reversed(sorted(names, key=str)))
    names = sorted(names, key=str)
    random.Random("%s/%s" % (how, key)).shuffle(names)
    return names


class Ordered(LocalFileSystem):
    """Local storage which lists in another order."""
    how = "reversed"
    cachable = False

    def ls(self, path, detail=False, **kw):
        r = super().ls(path, detail=True, **kw)
        by = {x["name"]: x for x in r}
        ns = reorder(self.how, by, os.path.basename(str(path)))
        return [by[n] for n in ns] if detail else ns


class Shuffled(Ordered):
    how = "shuffled"


def fill(fs, base, t, dirs=True):
    if dirs:
        fs.makedirs(base, exist_ok=True)
        for d in t["dirs"]:
            fs.makedirs(base + "/" + d, exist_ok=True)
    for p in t["files"]:
        fs.pipe_file(base + "/" + p, t["files"][p])


def wipe():
    MemoryFileSystem.store.clear()
    MemoryFileSystem.pseudo_dirs[:] = [""]


def put(kind, t, work, rng):
    """Place the tree; returns (location as text or None, filesystem with the tree as its root)."""
    n = next(_n)
    base = os.path.join(work, "b%d" % n)
    if kind in ("local", "reversed", "shuffled", "nested"):
        scan.write_tree(base, t)
        if kind == "nested":
            return None, DirFileSystem(path=os.path.basename(base), fs=DirFileSystem(path=os.path.dirname(base), fs=LocalFileSystem()))
        fs = {"local": LocalFileSystem, "reversed": Ordered, "shuffled": Shuffled}[kind]()
        return base if kind == "local" else None, DirFileSystem(path=base, fs=fs)
    if kind in ("memory", "objects"):
        fs = MemoryFileSystem()
        p = rng.choice(["t%d", "t%d/x", "a b/t%d"]) % n
        fill(fs, "/" + p, t, dirs=kind == "memory")
        return "memory://" + p, DirFileSystem(path="/" + p, fs=fs)
    # zip archives
    sub = rng.choice(["", "", "in/side/"])
    names = [(sub + p, t["files"][p]) for p in t["files"]]
    if kind == "zip":
        dirs = t["dirs"] + ([""] if sub else [])
        if rng.random() < 0.4:
            dirs = empty_dirs(t)
        names += [(sub + d + ("/" if d else ""), None) for d in dirs]
    rng.shuffle(names)
    with zipfile.ZipFile(base + ".zip", "w", rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED])) as z:
        for p, b in names:
            z.writestr(p, b"" if b is None else b)
    if not sub:
        return "zip://" + base + ".zip", ZipFileSystem(fo=base + ".zip")
    return None, DirFileSystem(path=sub.rstrip("/"), fs=ZipFileSystem(fo=base + ".zip"))


def contents(fs):
    """Tree of bytes read back (files only for storage without directories)."""
    files, dirs = {}, []
    for dp, dn, fn in fs.walk("", detail=False):
        for d in dn:
            if d:
                dirs.append((dp + "/" + d).strip("/"))
        for f in fn:
            if f:
                p = (dp + "/" + f).strip("/")
                files[p] = fs.cat_file(p)
    return {"files": files, "dirs": sorted(dirs)}


@contextlib.contextmanager
def listing(how):
    """Local storage lists in another order (also where the code opens it itself)."""
    if how in ("", "local"):
        yield
        return
    old = LocalFileSystem.ls

    def ls(self, path, detail=False, **kw):
        r = old(self, path, detail=True, **kw)
        by = {x["name"]: x for x in r}
        ns = reorder(how, by, os.path.basename(str(path)))
        return [by[n] for n in ns] if detail else ns
    LocalFileSystem.ls = ls
    try:
        yield
    finally:
        LocalFileSystem.ls = old
