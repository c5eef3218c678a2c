"""Traces of operations on one OCFL object, run on the code and recorded for
LifeJudge.tla.  What is done next is drawn at random from what is possible
or nearly possible in the current state; the recorded events say what was
asked, what the outcome was, and what is on storage afterwards.
"""
import copy
import json
import os
import random
import re
import shutil

import objgen
import runner
import scan
import sut

ALGS = ["sha512", "sha256"]
LAXALGS = ["md5", "sha1", "blake2b-512", "blake2b-160"]
ILLEGAL = ["", ".", "..", "/abs", "tr/", "a//b", "./a", "a/../b", "../up", "a/.", "dir/.."]
SRCN = ["a.txt", "b.txt", "dir/c.txt", "dir/sub/d.txt", "dir2/a.txt", "e", "ünï/ç.txt", "sp ace.txt", "%41.txt", ".hid", "A.txt", ".d/x", "x+y&z",
        "content", "inventory.json", "v1/x", "logs/l", "0=ocfl", "dir-2", "dir2.txt", "q\"uote", "back\\slash", "tab\tx", "d:e", "~t", "a%20b", "a b", "#h?"]
CREATED = ["2021-01-02T03:04:05Z", "2022-12-31T23:59:59+05:30", "1999-02-28T00:00:00.25Z", "2000-02-29T10:00:00-08:00"]
BADCREATED = ["yesterday", "2021-01-02", "2021-01-02T03:04:05", "2021-02-30T03:04:05Z", "2021-13-01T00:00:00Z", "2021-01-02T25:04:05Z", " 2021-01-02T03:04:05Z"]
OPS = ["create", "build", "update", "start", "add", "delete", "rename", "meta", "commit", "extract", "extractfile", "read", "validate", "damage"]
SAFE = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~/")

PROFILES = {
    # name: (weights of operations, chances)
    "mix": dict(update=4, start=3, add=6, delete=3, rename=3, meta=1, commit=4, extract=2, extractfile=2, read=2, validate=1, damage=0),
    "write": dict(update=6, start=3, add=4, delete=1, rename=1, meta=1, commit=5, extract=1, extractfile=0, read=1, validate=0, damage=0),
    "edit": dict(update=1, start=2, add=9, delete=6, rename=6, meta=2, commit=2, extract=0, extractfile=0, read=0, validate=0, damage=0),
    "extract": dict(update=3, start=1, add=1, delete=1, rename=1, meta=0, commit=1, extract=8, extractfile=8, read=2, validate=1, damage=1),
    "refuse": dict(update=4, start=3, add=3, delete=1, rename=1, meta=1, commit=4, extract=1, extractfile=1, read=1, validate=1, damage=2),
    "spec": dict(update=6, start=3, add=2, delete=1, rename=1, meta=0, commit=4, extract=1, extractfile=0, read=1, validate=1, damage=0, spec=4),
    "race": dict(update=2, start=6, add=2, delete=1, rename=0, meta=0, commit=7, extract=0, extractfile=0, read=0, validate=0, damage=0),
    "cli": dict(update=6, start=0, add=0, delete=0, rename=0, meta=0, commit=0, extract=3, extractfile=3, read=1, validate=2, damage=1),
    "long": dict(update=10, start=1, add=1, delete=1, rename=1, meta=0, commit=1, extract=1, extractfile=0, read=2, validate=0, damage=0),
}


def uri(p):
    r = "".join(chr(b) if b in SAFE else "%%%02X" % b for b in p.encode("utf-8"))
    return "%2E" + r[1:] if r.startswith(".") else r


def normalised(norm, p):
    if norm == "uri":
        return uri(p)
    if norm == "md5":
        return scan.hexes(p.encode("utf-8"))["md5"][:16]
    return p


def segs(p):
    return p.split("/")


def opt(x):
    return "none" if x is None else "=" + x


NOMETA = {"created": None, "message": None, "name": None, "address": None}


def meta_ev(m):
    return {"created": opt(m["created"]), "message": opt(m["message"]), "name": opt(m["name"]), "address": opt(m["address"]),
            "ts": scan.ts_token(m["created"] or "")}


class Trace:
    def __init__(self, case, base):
        self.rng = random.Random(case["rng"])
        self.case = case
        self.p = case["profile"]
        self.base = base
        self.work = os.path.join(base, "s", "c", "r", "work")
        os.makedirs(self.work)
        self.objdir = os.path.join(self.work, "obj")
        self.intern = scan.Intern()
        self.trees, self.treeix = [], {}
        self.steps = []
        self.handles = {}    # h -> dict(obj, nv, src, meta, ...)
        self.nsrc = 0
        self.nh = 0
        self.raw = None
        self.contents = list(objgen.CONTENTS)
        if case.get("big"):
            self.contents.append(objgen.BIG)
        for b in self.contents:
            self.intern.add(b)
        self.adopt()

    # --- state ---
    def tree(self):
        """Number of the tree now at objdir."""
        if not os.path.lexists(self.objdir):
            self.raw = None
            return 0
        if os.path.isfile(self.objdir):
            with open(self.objdir, "rb") as fh:
                t = {"files": {"<file>": fh.read()}, "dirs": []}
        else:
            t = scan.read_tree(self.objdir)
        self.raw = t
        key = (tuple(sorted(t["files"].items())), tuple(t["dirs"]))
        if key not in self.treeix:
            self.trees.append(scan.ast(t, self.intern))
            self.treeix[key] = len(self.trees)
        return self.treeix[key]

    def adopt(self):
        self.pt = self.tree()
        self.start = self.pt

    def outside(self, allowed):
        """Snapshot of everything in the scratch area except below allowed."""
        res = {}
        for dp, dn, fn in os.walk(self.base):
            if dp == allowed:
                dn[:] = []
                continue
            dn.sort()
            for d in dn:
                q = os.path.join(dp, d)
                if q != allowed:
                    res[q] = None
            for f in fn:
                q = os.path.join(dp, f)
                if q != allowed:
                    with open(q, "rb") as fh:
                        res[q] = fh.read()
        return res

    def inv(self):
        """Root inventory as it is (or None)."""
        try:
            return json.loads(self.raw["files"]["inventory.json"])
        except Exception:
            return None

    def versions(self):
        i = self.inv()
        try:
            return sorted(i["versions"], key=lambda v: int(v[1:]))
        except Exception:
            return []

    def state(self, v):
        try:
            return {p: d for d, ps in self.inv()["versions"][v]["state"].items() for p in ps}
        except Exception:
            return {}

    def bytes_of_state(self, v):
        i = self.inv()
        res = {}
        for p, d in self.state(v).items():
            if any(x in ("", ".", "..") for x in p.split("/")):
                continue
            try:
                res[p] = self.raw["files"][i["manifest"][d][0]]
            except Exception:
                pass
        return res

    # --- recording ---
    def record(self, op, fn, allowed=None, **ev):
        before = self.outside(allowed or self.objdir)
        r = sut.call(fn)
        after = self.outside(allowed or self.objdir)
        ev["elsewhere"] = before != after
        ev["op"] = op
        ev["res"] = "refused" if r[0] == "exc" else ("none" if op == "update" and r[1] is None else "ok")
        if r[0] == "exc":
            ev["exc"] = r[1] + ": " + r[2]
        ev["pt"] = self.pt = self.tree()
        ev.setdefault("lax", self.lax)
        self.steps.append(ev)
        return ev, r

    def lib(self, lax):
        o = sut.validate_object(self.objdir, lax_digests=lax)
        return {"v": o["v"], "codes": o["codes"]}

    # --- random ingredients ---
    def srcmap(self, like=None, n=None):
        rng = self.rng
        if like is not None and rng.random() < 0.75:
            m = {}
            for p in sorted(like):
                self.put(m, p, like[p])
            for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
                self.mutate(m)
            return m
        m = {}
        for _ in range(n if n is not None else rng.choice([0, 1, 1, 2, 3, 4, 6])):
            self.put(m, rng.choice(SRCN), rng.choice(self.contents))
        return m

    def put(self, m, p, b):
        if not any(q.startswith(p + "/") or p.startswith(q + "/") for q in m):
            m[p] = b

    def mutate(self, m):
        rng = self.rng
        k = rng.random()
        ps = sorted(m)
        if k < 0.3 and ps:
            m[rng.choice(ps)] = rng.choice(self.contents)
        elif k < 0.45 and ps:
            del m[rng.choice(ps)]
        elif k < 0.6 and ps:
            p = rng.choice(ps)
            b = m.pop(p)
            self.put(m, rng.choice(SRCN), b)
        elif k < 0.7 and len(ps) > 1:
            a, b = rng.sample(ps, 2)
            m[a], m[b] = m[b], m[a]
        else:
            self.put(m, rng.choice(SRCN), rng.choice(self.contents))

    def source(self, m):
        """Write a source directory with the files m."""
        self.nsrc += 1
        d = os.path.join(self.work, "src%d" % self.nsrc)
        scan.write_tree(d, {"files": m, "dirs": []})
        return d

    def srcev(self, m, norm):
        return [{"p": segs(p), "c": self.intern.add(m[p]), "n": segs(normalised(norm, p))} for p in sorted(m)]

    def meta(self, bad=0.05):
        rng = self.rng
        m = dict(NOMETA)
        if rng.random() < 0.7:
            m["created"] = rng.choice(CREATED)
        if rng.random() < bad:
            m["created"] = rng.choice(BADCREATED)
        if rng.random() < 0.7:
            m["message"] = rng.choice(["m%d" % rng.randint(0, 99), "", "ünï\nx", "\"q\""])
        if rng.random() < 0.7:
            m["name"] = rng.choice(["N%d" % rng.randint(0, 9), "Ü", "a b"])
            if rng.random() < 0.7:
                m["address"] = rng.choice(["mailto:x@example.org", "http://e.org/", "plain"])
        elif rng.random() < bad:
            m["address"] = "mailto:only@example.org"
        return m

    def vm(self, m):
        import ocfl
        return ocfl.VersionMetadata(**m)

    def settings(self):
        rng = self.rng
        return {"norm": rng.choice(["uri", "uri", "md5", "none"]), "fwd": rng.random() < 0.6, "dedupe": rng.random() < 0.6}

    def handle(self, s, **kw):
        """An ocfl.Object with the settings s."""
        import ocfl
        return ocfl.Object(content_path_normalization=None if s["norm"] == "none" else s["norm"], forward_delta=s["fwd"], dedupe=s["dedupe"],
                           lax_digests=self.lax, **kw)

    # --- calls of the library ---
    def do_create(self, e, build, sd, metas, fix):
        o = self.handle(e, identifier=e["id"], content_directory=e["cd"], digest_algorithm=e["alg"], spec_version=e["spec"], fixity=fix)
        dst = None if e["dry"] else self.objdir
        if build:
            return o.build(srcdir=sd, versions_metadata={x + 1: self.vm(metas[x]) for x in range(len(metas))}, objdir=dst)
        return o.create(srcdir=sd, metadata=self.vm(metas[0]), objdir=dst)

    def do_update(self, e, s, sd, meta):
        viapath = self.rng.random() < 0.5
        o = self.handle(s, digest_algorithm=e["alg"] or None, fixity=e["fixalgs"] if e["fixset"] else None, path=self.objdir if viapath else None)
        return o.add_version_with_content(objdir="" if viapath else self.objdir, srcdir=sd, metadata=self.vm(meta), abort_if_no_difference=e["abort"])

    def do_extract(self, ver, dst):
        return self.handle(self.settings()).extract(self.objdir, ver, dst)

    def do_extractfile(self, ver, dst, lp):
        return self.handle(self.settings()).extract_file(self.objdir, ver, dst, lp)

    def limit(self, e):
        """Adapt what is asked to what can be asked."""

    # --- operations ---
    def prepare_build(self, sd, metas):
        """For variants that need more than the arguments of build()."""

    def op_create(self, build=False):
        rng = self.rng
        s = self.settings()
        bad = rng.random() < self.case["bad"]
        e = dict(id=rng.choice(["info:o1", "http://example.org/o", "x y", "é", "a/../b"]), spec=rng.choice(["1.0", "1.1", "1.1"]), alg=rng.choice(ALGS),
                 cd=rng.choice(["content", "content", "data", "inventory", ".c", "c d"]), dry=rng.random() < 0.1, **s)
        if self.lax and rng.random() < 0.6:
            e["alg"] = rng.choice(LAXALGS)
        self.limit(e)
        n = rng.choice([1, 2, 3, 4]) if build else 1
        if build and rng.random() < 0.08:
            n = rng.choice([0, 10, 11])
        k = rng.choice(["id", "spec", "cd", "meta", "norm", "occupied", "file", "alg"]) if bad else ""
        if k == "id":
            e["id"] = ""
        elif k == "spec":
            e["spec"] = rng.choice(["1.2", "2.0", "", "1"])
        elif k == "cd":
            e["cd"] = rng.choice(["", ".", "..", "a/b", "/"])
        elif k == "norm":
            e["norm"] = "nope"
        elif k == "alg":
            e["alg"] = rng.choice(["sha3", "SHA512", "md55"])
        elif k == "occupied" and not os.path.lexists(self.objdir):
            scan.write_tree(self.objdir, {"files": {rng.choice(["x", "d/y", ".hidden", "0=ocfl_object_1.1"]): b"x"}, "dirs": []})
        elif k == "file" and not os.path.lexists(self.objdir):
            with open(self.objdir, "wb") as fh:
                fh.write(b"here first\n")
        elif not os.path.lexists(self.objdir) and rng.random() < 0.15:
            os.makedirs(self.objdir)
        self.limit(e)
        pt = self.tree()
        if pt != self.pt:
            self.steps.append({"op": "damage", "res": "ok", "pt": pt, "elsewhere": False, "lax": self.lax})
            self.pt = pt
        e["cdslash"] = "/" in e["cd"]
        maps, m = [], None
        for _ in range(n):
            m = self.srcmap(m)
            maps.append(m)
        metas = [self.meta(1.0 if k == "meta" and x == n - 1 else 0.0) for x in range(n)]
        fix = None if rng.random() < 0.7 else rng.sample(["md5", "sha1", "blake2b-160"], rng.randint(0, 2))
        e["srcs"] = [self.srcev(x, e["norm"]) for x in maps]
        e["metas"] = [meta_ev(x) for x in metas]
        e["dryvers"] = []
        if build:
            e["fwd"] = s["fwd"]
            self.nsrc += 1
            sd = os.path.join(self.work, "src%d" % self.nsrc)
            os.makedirs(sd)
            for x in range(n):
                scan.write_tree(os.path.join(sd, "v%d" % (x + 1)), {"files": maps[x], "dirs": []})
            self.prepare_build(sd, metas)
        else:
            sd = self.source(maps[0])

        def fn():
            return self.do_create(e, build, sd, metas, fix)
        if e["dry"]:
            lookup = {scan.hexes(b)[e["alg"]]: self.intern.add(b) for m in maps for b in m.values()} if e["alg"] in scan.HASHES else {}
        ev, r = self.record("create", fn, how="build" if build else "create", **e)
        if ev["res"] == "ok":
            if e["dry"]:
                for v in r[1].versions():
                    ev["dryvers"].append([{"p": segs(p), "c": lookup.get(d.lower(), "?")} for d, ps in v.state.items() for p in ps])
            else:
                ev["lib"] = self.lib(self.lax or e["alg"] not in ALGS)
                if e["alg"] not in ALGS:
                    self.lax = True

    def newalg(self):
        rng = self.rng
        i = self.inv() or {}
        cur = i.get("digestAlgorithm", "sha512")
        x = rng.random() * self.case.get("algkeep", 1)
        if self.case.get("algkeep") and rng.random() < 0.5:
            return rng.choice([a for a in ALGS if a != cur])
        if x < 0.55:
            return ""
        if x < 0.7:
            return cur if isinstance(cur, str) else ""
        if x < 0.72:
            return "nope"
        if self.lax and x < 0.9:
            return rng.choice(LAXALGS)
        return rng.choice(ALGS)

    def fixargs(self):
        rng = self.rng
        i = self.inv() or {}
        if rng.random() < 0.75:
            return False, []
        f = i.get("fixity")
        ks = sorted(f) if isinstance(f, dict) else []
        return True, rng.sample(ks, rng.randint(0, len(ks))) + (["md5"] if rng.random() < 0.2 and "md5" not in ks else [])

    def op_update(self):
        rng = self.rng
        s = self.settings()
        if rng.random() < 0.03:
            s["norm"] = "nope"
        vs = self.versions()
        hassrc = rng.random() < 0.85
        like = self.bytes_of_state(rng.choice(vs[-1:] + vs)) if vs else None
        m = self.srcmap(like) if hassrc else {}
        fixset, fixalgs = self.fixargs()
        meta = self.meta()
        e = dict(hassrc=hassrc, src=self.srcev(m, s["norm"]), srcs=self.srcev(m, s["norm"]), abort=rng.random() < 0.35, alg=self.newalg(), fixset=fixset,
                 fixalgs=fixalgs, meta=meta_ev(meta), carry=not hassrc, nosrc=hassrc and rng.random() < 0.03, h="", **s)
        sd = self.source(m) if hassrc else None
        if e["nosrc"]:
            sd = os.path.join(self.work, "nowhere")
        self.limit(e)
        ev, r = self.record("update", lambda: self.do_update(e, s, sd, meta), **e)
        self.written(ev, e["alg"])

    def written(self, ev, alg):
        if ev["res"] == "ok":
            ev["lib"] = self.lib(self.lax or alg not in ALGS + [""])
            if alg not in ALGS + [""]:
                self.lax = True

    def op_start(self):
        rng = self.rng
        s = self.settings()
        vs = self.versions()
        fixset, fixalgs = self.fixargs()
        meta = self.meta(0.03)
        m = {}
        if vs and rng.random() < 0.6:
            for p, b in self.bytes_of_state(rng.choice(vs)).items():
                if p in SRCN or rng.random() < 0.5:
                    self.put(m, p, b)
        for _ in range(rng.randint(2, 6)):
            self.put(m, rng.choice(SRCN), rng.choice(self.contents))
        nosrc = rng.random() < 0.02
        sd = self.source(m)
        if nosrc:
            sd = os.path.join(self.work, "nowhere")
        e = dict(carry=rng.random() < 0.75, alg=self.newalg(), fixset=fixset, fixalgs=fixalgs, meta=meta_ev(meta), nosrc=nosrc, obs=[], diff=[], **s)
        self.nh += 1
        h = e["h"] = "h%d" % self.nh
        viapath = rng.random() < 0.5
        o = None
        withlist = rng.random() < 0.2

        def fn():
            nonlocal o
            o = self.handle(s, path=self.objdir if viapath else None)
            return o.start_new_version(objdir=None if viapath else self.objdir, srcdir=sd, digest_algorithm=e["alg"] or None, fixity=fixalgs if fixset else None,
                                       metadata=None if m == NOMETA and withlist else self.vm(meta), carry_content_forward=e["carry"])
        ev, r = self.record("start", fn, **e)
        if ev["res"] == "ok":
            self.handles[h] = dict(o=o, nv=r[1], src=m, meta=dict(meta), norm=s["norm"], alg=e["alg"])
            self.observe(ev, h)

    def observe(self, ev, h):
        nv = self.handles[h]["nv"]
        ev["obs"] = [{"p": segs(p), "d": self.intern.token(d)} for d, ps in nv.inventory.current_version.state.items() for p in ps]
        r = sut.call(nv.diff_with_previous)
        ev["diff"] = [] if r[0] == "exc" else [{"o": op, "p": segs(p), "d": self.intern.token(d)} for op, d, p in r[1]]
        if r[0] == "exc":
            ev["diff"] = [{"o": "X", "p": [r[1]], "d": self.intern.token("")}]

    def edit(self, op, fn, h, **e):
        ev, r = self.record(op, fn, h=h, obs=[], diff=[], **e)
        self.observe(ev, h)
        return ev

    def staged(self, h):
        return sorted(p for ps in self.handles[h]["nv"].inventory.current_version.state.values() for p in ps)

    def pick(self):
        hs = sorted(self.handles)
        return self.rng.choice(hs[-1:] * 3 + hs)

    def newpath(self, have):
        rng = self.rng
        x = rng.random()
        if x < 0.08:
            return rng.choice(ILLEGAL)
        if x < 0.2 and have:
            return rng.choice(have)
        if x < 0.27 and have:
            return rng.choice(have) + "/" + rng.choice(["x", "y/z", "a.txt"])
        if x < 0.34 and have:
            ps = [p for p in have if "/" in p]
            if ps:
                return rng.choice(ps).rpartition("/")[0]
        if x < 0.38 and have:
            return rng.choice(have) + rng.choice(["x", " ", ".", "-"])
        return rng.choice(SRCN)

    def op_add(self):
        rng = self.rng
        h = self.pick()
        hd = self.handles[h]
        nv = hd["nv"]
        have = self.staged(h)
        sp = rng.choice(sorted(hd["src"])) if hd["src"] and rng.random() < 0.96 else "missing.txt"
        missing = sp not in hd["src"]
        lp = sp if rng.random() < 0.35 else self.newpath(have)
        cp = None
        if rng.random() < 0.3:
            v = nv.inventory.head
            cd = (self.inv() or {}).get("contentDirectory", "content")
            olds = sorted(p for ps in (self.inv() or {}).get("manifest", {}).values() for p in ps)
            mine = sorted(nv.files_to_copy) if hasattr(nv, "files_to_copy") else []
            good = "%s/%s/" % (v, cd)
            cp = rng.choice([good + rng.choice(["x", "y/z", "a.txt", "w%d" % rng.randint(0, 99)])] * 5 + [
                good + "../../x", good, good + "/x", good + "x/", "%s/other/x" % v, "%s/%sx/y" % (v, cd), "x", "v1/%s/new" % cd, v + "x/" + cd + "/f", "/" + good + "x",
                rng.choice(olds + mine + ["q"]), rng.choice(mine + [good + "x"]) + "/y", rng.choice(mine + [good + "x"]), good + "a/./b"])
        b = hd["src"].get(sp, b"")
        used = list(nv.inventory.content_paths)
        self.edit("add", lambda: nv.add(sp, lp, cp), h, c=self.intern.add(b), n=segs(normalised(hd["norm"], sp)), lp=segs(lp),
                  cp=[] if cp is None else segs(cp), missing=missing,
                  cpused=cp is not None and any(x == cp or x.startswith(cp + "/") or cp.startswith(x + "/") for x in used), norm=hd["norm"])

    def op_delete(self):
        h = self.pick()
        have = self.staged(h)
        lp = self.rng.choice(have) if have and self.rng.random() < 0.85 else self.newpath([])
        nv = self.handles[h]["nv"]
        self.edit("delete", lambda: nv.delete(lp), h, lp=segs(lp))

    def op_rename(self):
        h = self.pick()
        have = self.staged(h)
        lp = self.rng.choice(have) if have and self.rng.random() < 0.88 else self.newpath([])
        to = self.newpath(have)
        if self.rng.random() < 0.05:
            to = lp + "/" + to
        elif self.rng.random() < 0.03:
            to = lp
        nv = self.handles[h]["nv"]
        self.edit("rename", lambda: nv.rename(lp, to), h, lp=segs(lp), to=segs(to))

    def op_meta(self):
        h = self.pick()
        hd = self.handles[h]
        nv = hd["nv"]
        new = {k: v for k, v in self.meta(0.03).items() if v is not None and self.rng.random() < 0.7}
        if hd["meta"]["name"] is None and "name" not in new:
            if self.rng.random() < 0.9:
                new.pop("address", None)
        m = dict(hd["meta"], **new)

        def fn():
            if "created" in new:
                nv.created = new["created"]
            if "message" in new:
                nv.message = new["message"]
            if "name" in new:
                nv.user_name = new["name"]
            if "address" in new:
                nv.user_address = new["address"]
        ev = self.edit("meta", fn, h, meta=meta_ev(m))
        hd["meta"] = m
        return ev

    def op_commit(self):
        h = self.pick()
        hd = self.handles[h]
        ev, r = self.record("commit", lambda: hd["o"].write_new_version(hd["nv"]), h=h)
        self.written(ev, hd["alg"])
        if self.rng.random() < 0.8 or ev["res"] == "ok" and self.rng.random() < 0.7:
            self.handles.pop(h)

    def out(self, d):
        if os.path.isfile(d):
            with open(d, "rb") as fh:
                return [{"p": ["<file>"], "c": self.intern.add(fh.read())}], []
        if not os.path.isdir(d):
            return [], []
        t = scan.read_tree(d)
        return [{"p": segs(p), "c": self.intern.add(t["files"][p])} for p in sorted(t["files"])], [segs(p) for p in t["dirs"]]

    def destination(self, kinds):
        k = self.rng.choice(kinds)
        self.nsrc += 1
        d = os.path.join(self.work, "o", "u", "t%d" % self.nsrc)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        if k == "empty":
            os.makedirs(d)
        elif k == "full":
            scan.write_tree(d, {"files": {self.rng.choice(["keep", "sub/keep", ".keep"]): b"keep"}, "dirs": []})
        elif k == "emptysub":
            scan.write_tree(d, {"files": {}, "dirs": ["sub"]})
            k = "full"
        elif k == "file":
            with open(d, "wb") as fh:
                fh.write(b"a file")
        elif k == "noparent":
            d = os.path.join(d, "x", "y")
        return k, d

    def askver(self):
        vs = self.versions()
        x = self.rng.random()
        if x < 0.25 or not vs:
            return "head"
        if x < 0.9:
            return self.rng.choice(vs)
        return self.rng.choice(["v0", "v99", "", "v1/", "1", "v01", "v001", "../v1", "V1", "latest"])

    @staticmethod
    def metaof(m):
        if m is None:
            return meta_ev(NOMETA)
        return {"created": opt(m.created), "message": opt(m.message), "name": opt(m.name), "address": opt(m.address)}

    def op_extract(self):
        ver = self.askver()
        k, d = self.destination(["absent"] * 5 + ["empty"] * 3 + ["full", "file", "noparent", "emptysub"])
        before, _ = self.out(d)
        slash = d + "/" if self.rng.random() < 0.15 and k != "file" else d
        ev, r = self.record("extract", lambda: self.do_extract(ver, slash), allowed=d, ver=ver, dst=k, before=before)
        ev["out"], ev["outdirs"] = self.out(d)
        ev["meta"] = self.metaof(r[1]) if ev["res"] == "ok" else {}

    def op_extractfile(self):
        ver = self.askver()
        vs = self.versions()
        ps = sorted(self.state(vs[-1] if ver == "head" else ver)) if vs else []
        lp = self.rng.choice(ps) if ps and self.rng.random() < 0.88 else self.newpath(ps)
        k, d = self.destination(["absent"] * 4 + ["empty"] * 2 + ["full"] * 3 + ["samename", "samename", "file", "noparent"])
        if k == "samename":
            if lp.split("/")[-1] in ("", ".", ".."):
                k = "absent"
            else:
                scan.write_tree(d, {"files": {lp.split("/")[-1]: b"mine"}, "dirs": []})
        before, bd = self.out(d)
        if k == "full" and any(b["p"][0] == lp.split("/")[-1] for b in before):
            k = "samename"
        ev, r = self.record("extractfile", lambda: self.do_extractfile(ver, d, lp), allowed=d, ver=ver, dst=k, before=before, beforedirs=bd, lp=segs(lp))
        ev["out"], ev["outdirs"] = self.out(d)
        ev["meta"] = self.metaof(r[1]) if ev["res"] == "ok" else {}

    def op_read(self):
        import ocfl

        def fn():
            o = ocfl.Object(path=self.objdir, lax_digests=self.lax)
            inv = o.parse_inventory()
            vers = []
            for v in inv.version_directories:
                x = inv.version(v)
                files = []
                for lp in x.logical_paths:
                    cp = x.content_path_for_logical_path(lp)
                    b = (self.raw or {"files": {}})["files"].get(cp)
                    files.append({"p": segs(lp), "c": "?" if b is None else self.intern.add(b)})
                vers.append({"v": v, "n": x.number, "files": files,
                             "meta": {"created": opt(x.created), "message": opt(x.message), "name": opt(x.user_name), "address": opt(x.user_address)}})
            return vers, inv.head
        ev, r = self.record("read", fn)
        ev["vers"], ev["head"] = r[1] if ev["res"] == "ok" else ([], "")

    def op_spec(self):
        """Ask for a version of a given specification version."""
        import ocfl
        spec = self.rng.choice(["1.0", "1.0", "1.1"])

        def fn():
            o = ocfl.Object(path=self.objdir, lax_digests=self.lax)
            inv = o.parse_inventory()
            return ocfl.NewVersion.next_version(inventory=inv, spec_version=spec)
        ev, r = self.record("spec", fn, spec=spec)
        ev["got"] = r[1].inventory.data["type"] if ev["res"] == "ok" else ""

    def op_validate(self):
        self.record("validate", lambda: sut.validate_object(self.objdir, lax_digests=self.lax))

    def op_damage(self):
        """Something happens to the object behind the library's back."""
        rng = self.rng
        if not os.path.isdir(self.objdir):
            return
        fs = sorted(self.raw["files"])
        k = rng.choice(["alter", "delete", "extra", "inv", "inv", "paths", "paths", "paths", "dir"])
        if k == "alter" and fs:
            with open(os.path.join(self.objdir, rng.choice(fs)), "ab") as fh:
                fh.write(b"x")
        elif k == "delete" and fs:
            os.unlink(os.path.join(self.objdir, rng.choice(fs)))
        elif k == "extra":
            scan.write_tree(self.objdir, {"files": {rng.choice(["extra", "v1/extra", "extensions/e", "v1/content/extra"]): b"x"}, "dirs": []})
        elif k == "dir":
            vs = self.versions()
            if vs:
                n = int(vs[-1][1:]) + 1
                os.makedirs(os.path.join(self.objdir, ("v%0" + str(len(vs[-1]) - 1) + "d") % n if vs[-1][1] == "0" else "v%d" % n), exist_ok=True)
        else:
            i = self.inv()
            if not isinstance(i, dict) or not self.versions():
                return
            try:
                self.spoil(i, k)
            except (KeyError, TypeError, IndexError, AttributeError):
                return
            b = objgen.dump(i)
            a = objgen.inv_alg(i)
            files = {"inventory.json": b, "inventory.json." + a: objgen.sidecar(b, a)}
            h = self.versions()[-1]
            files.update({h + "/inventory.json": b, h + "/inventory.json." + a: objgen.sidecar(b, a)})
            scan.write_tree(self.objdir, {"files": files, "dirs": []})
        pt = self.tree()
        self.steps.append({"op": "damage", "res": "ok", "pt": pt, "elsewhere": False, "lax": self.lax})
        self.pt = pt

    def spoil(self, i, k):
        """Make the root inventory invalid (or nearly)."""
        rng = self.rng
        v = rng.choice(sorted(i["versions"]))
        st = i["versions"][v]["state"]
        if k == "paths":
            if st:
                ps = st[rng.choice(sorted(st))]
                bad = rng.choice(["../up", "../../up2", "a/../../../up3", os.path.join(self.work, "abs"), "x/../y", "./z", "a//b", "tr/", ""])
                if rng.random() < 0.5:
                    ps[rng.randrange(len(ps))] = bad
                else:
                    ps.append(bad)
            return
        x = rng.choice(["id", "head", "nodig", "type", "man", "extra", "algo", "created"])
        if x == "id":
            i["id"] = rng.choice(["", None, 3])
        elif x == "head":
            i["head"] = "v77"
        elif x == "nodig" and st:
            st["0" * 128] = ["new"]
        elif x == "type":
            i["type"] = "x"
        elif x == "man":
            d = sorted(i["manifest"])[0]
            i["manifest"][d] = ["../../src1/a.txt"]
        elif x == "algo":
            i["digestAlgorithm"] = "md5"
        elif x == "created":
            i["versions"][v]["created"] = "never"
        else:
            i["extra"] = 1

    def go(self):
        c = self.case
        rng = self.rng
        w = PROFILES[self.p]
        if self.pt == 0:
            (self.op_create if rng.random() < 0.6 else lambda: self.op_create(build=True))()
        ops = [o for o in w for _ in range(w[o])]
        for _ in range(c["len"]):
            o = rng.choice(ops)
            if o in ("add", "delete", "rename", "meta", "commit") and not self.handles:
                o = "start"
            if not os.path.lexists(self.objdir) or (rng.random() < 0.03):
                o = "create" if rng.random() < 0.6 else "build"
            if o == "build":
                self.op_create(build=True)
            else:
                getattr(self, "op_" + o)()
        return {"trees": self.trees, "start": self.start, "steps": self.steps}


def gen(profile, length=10, bad=0.1, big=0.0, initial=0.5, **more):
    def g(seed, i):
        rng = random.Random("%s/life/%s/%s/%d" % (seed, profile, sorted(more), i))
        c = {"rng": rng.random(), "profile": profile, "len": rng.randint(length // 2, length), "bad": bad, "big": rng.random() < big, "lax": rng.random() < 0.15,
             "desc": "life:%s" % profile, **more}
        if rng.random() < initial:
            kw = {}
            if profile == "long" or rng.random() < 0.12:
                kw = rng.choice([dict(nver=8, pad=2), dict(nver=9, pad=2), dict(nver=9, pad=0), dict(nver=8, pad=0), dict(nver=9, pad=3), dict(nver=10, pad=0), dict(nver=10, pad=3)])
            d = objgen.gen(rng, big=c["big"], **kw)
            c["tree"] = objgen.emit(objgen.obj(d))
            c["desc"] += " on object"
        return c
    return g


class LTrace(Trace):
    def adopt(self):
        self.lax = self.case["lax"]
        if "tree" in self.case:
            scan.write_tree(self.objdir, self.case["tree"])
        super().adopt()


def run(case):
    with runner.Dir() as base:
        t = LTrace(case, base)
        r = t.go()
    r["_info"] = brief(r["steps"])
    return [r]


def brief(steps):
    res = []
    for s in steps:
        res.append({k: v for k, v in s.items() if k not in ("obs", "diff", "out", "outdirs", "before", "beforedirs", "trees")})
    return res
