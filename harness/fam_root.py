"""Storage roots: creation, addition, listing, location and validation,
recorded for RootJudge.tla."""
import json
import os
import random
import re
import shutil

import fam_layout as fy
import fam_valid as fv
import objgen
import runner
import scan
import sut
from sut import call

SPECS = ["1.0", "1.1"]
IDS = ["a", "ab", "abab", "ababab", "abcd", "abcde", "http://example.org/x", "http://example.org/x/y", "info:o/1", "ark:/12345/x", "x y", "x+y", "x%20y", "ünï", "..", ".", "a/b",
       "extensions", "ocfl_layout.json", "0=ocfl_1.1", "0=x", "README.txt", "logs", "o" * 60, "é" * 60, "p" * 260, "/abs", "v1", "Extensions", "abcdef", "abcdefab", "-", "~", "%2e%2e",
       "a:b", "a=b", "urn:uuid:6ba7b810-9dad-11d1-80b4-00c04fd430c8", "urn:uuid:6ba7b811-9dad-11d1-80b4-00c04fd430c8", "urn:uuid:00000000-0000-0000-0000-000000000000"]
SPOTS = ["o1", "a/b/o", "x/y/z/w/obj", "a/c/o", "extensionsX/o", "v1", ".hid/o", "sp ace/o", "deep/d1/d2/d3/d4/d5/o", "logs", "x/y/o2", "0a", "content/inventory.json/o", "ünï/ö", "b/extensions/o", "b/extensions/extensions"]
CONFKINDS = {"0003": "0003-hash-and-id-n-tuple-storage-layout", "tuple": "nnnn-tuple-tree-layout", "uuid": "nnnn-uuid-quadtree"}


# ---- scanning ----
def scan_root(tree, intern, pool):
    """Bytes of a root -> abstract root; pool(tree of bytes) -> number."""
    files, dirs, units = [], [], []
    top = {}
    for p in sorted(tree["files"]):
        g = p.split("/")
        b = tree["files"][p]
        e = {"p": g, "k": "c", "c": intern.add(b)}
        if len(g) == 1 and p.startswith("0="):
            e["k"] = "nam"
            e["name"] = p
            try:
                txt = b.decode("utf-8")
            except ValueError:
                txt = "\0"
            e["ok"] = "yes" if txt == p[2:] + "\n" else "loose" if re.sub(r"[^\w.\-:]", "_", txt.strip()[:40]) == p[2:] else "no"
        elif p == "ocfl_layout.json":
            e["k"] = "lay"
            ok, x = scan.parse_json(b)
            e["j"] = fy.jtok(x) if ok else {"t": "x"}
        elif len(g) == 3 and g[0] == "extensions" and g[2] == "config.json":
            e["k"] = "conf"
            e["name"] = g[1]
            ok, x = scan.parse_json(b)
            e["j"] = fy.jtok(x) if ok else {"t": "x"}
        files.append(e)
    hasfiles = set(p.rpartition("/")[0] for p in tree["files"])
    for d in tree["dirs"]:
        g = d.split("/")
        dirs.append({"p": g})
        if g[0] == "extensions":
            continue
        if d in hasfiles and not any("/".join(g[:n]) in hasfiles for n in range(1, len(g))):
            units.append(d)
    for d in units:
        sub = {"files": {p[len(d) + 1:]: b for p, b in tree["files"].items() if p.startswith(d + "/")},
               "dirs": [p[len(d) + 1:] for p in tree["dirs"] if p.startswith(d + "/")]}
        decls = sorted(p for p in sub["files"] if "/" not in p and p.startswith("0="))
        top[d] = {"p": d.split("/"), "o": pool(sub), "decls": decls}
    return {"files": files, "dirs": dirs, "units": [top[d] for d in units]}


def digs(i):
    try:
        b = i.encode("utf-8")
    except UnicodeEncodeError:
        b = b""
    h = scan.hexes(b)
    return {a: fy.cps(h[a]) for a in fy.ALGS}


class RTrace:
    cspec = True    # the version can be given when the instance is made

    def __init__(self, case, base):
        self.case, self.base = case, base
        self.rng = random.Random(case["rng"])
        self.area = os.path.join(base, "s", "c", "r", "area")
        os.makedirs(self.area)
        self.root = os.path.join(self.area, "root")
        self.intern = scan.Intern()
        self.objs, self.objix, self.trees, self.treeix = [], {}, [], {}
        self.evs = []
        self.stores = {}
        self.nsrc = 0
        self.lax = False

    # --- trees ---
    def pool(self, t):
        key = (tuple(sorted(t["files"].items())), tuple(sorted(t["dirs"])))
        if key not in self.objix:
            self.objs.append(scan.ast(t, self.intern))
            self.objix[key] = len(self.objs)
        return self.objix[key]

    def tree(self):
        if not os.path.lexists(self.root):
            return 0
        if os.path.isfile(self.root):
            with open(self.root, "rb") as fh:
                t = {"files": {"<file>": fh.read()}, "dirs": []}
        else:
            t = scan.read_tree(self.root)
        key = (tuple(sorted(t["files"].items())), tuple(t["dirs"]))
        if key not in self.treeix:
            self.trees.append(scan_root(t, self.intern, self.pool))
            self.treeix[key] = len(self.trees)
        return self.treeix[key]

    def outside(self):
        res = {}
        for dp, dn, fn in os.walk(self.base):
            dn[:] = sorted(d for d in dn if os.path.join(dp, d) != self.root)
            for d in dn:
                res[os.path.join(dp, d)] = None
            for f in fn:
                q = os.path.join(dp, f)
                if q != self.root:
                    with open(q, "rb") as fh:
                        res[q] = fh.read()
        return res

    # --- the library ---
    def store(self, which="fresh", told="", expect=""):
        from ocfl import StorageRoot
        key = (told, expect)
        if which == "fresh" or key not in self.stores:
            s = StorageRoot(self.where(), layout_name=told or None, lax_digests=self.lax, spec_version=expect or None)
            if which == "fresh":
                return s
            self.stores[key] = s
        return self.stores[key]

    def where(self):
        return self.root

    def opts(self):
        """Which instance, told layout, expected version."""
        rng = self.rng
        told = rng.choice(fy.NAMES) if rng.random() < self.case.get("told", 0.1) else ""
        expect = rng.choice(SPECS) if rng.random() < 0.12 else ""
        return rng.choice(["fresh", "same"]), told, expect

    def ev(self, op, r, t, **k):
        refusals = ("StorageRootException", "ObjectException", "LayoutException")
        e = {"op": op, "t": t, "u": self.tree(), "grp": "", "ans": "", "res": "ok" if r[0] == "ok" else "refused" if r[1] in refusals else "exc",
             "err": "" if r[0] == "ok" else (r[1] + ": " + r[2])[:200]}
        e.update(k)
        self.evs.append(e)
        return e

    def op_validate(self):
        rng = self.rng
        which, told, expect = self.opts()
        self.validate(which, told, expect, rng.random() < 0.8, rng.random() < 0.7, rng.random() < 0.4, rng.random() < 0.7)

    def validate(self, which, told, expect, objects, dig, warn, err):
        t = self.tree()
        s = self.store(which, told, expect)
        r = call(s.validate, validate_objects=objects, check_digests=dig, log_warnings=warn, log_errors=err)
        res = "valid" if r[0] == "ok" and r[1] is True else "invalid" if r[0] == "ok" and r[1] is False else "exc"
        codes = sorted(set(c[:4] for c in s.log.codes if c.startswith("E"))) if res != "exc" else []
        badp = [p.split("/") for p, m in s.errors if re.search(r"\[E\d\d\d", m)] if res != "exc" else []
        num, good = (s.num_objects, s.good_objects) if res != "exc" else (0, 0)
        self.ev("validate", r, t, expect=expect, objects=objects, dig=dig, codes=codes, num=num if objects else 0, good=good if objects else 0, badp=badp if objects else [],
                grp="v%s%s%s" % (objects, dig, expect), ans="%s %s" % (res, codes), res=res)

    def op_list(self):
        t = self.tree()
        which, told, expect = self.opts()
        s = self.store(which, told, expect)
        r = call(lambda: list(s.list_objects()))
        items = [{"p": p.split("/"), "id": i if isinstance(i, str) else repr(i)} for p, i in r[1]] if r[0] == "ok" else []
        self.ev("list", r, t, expect=expect, items=items, grp="l" + expect, ans="%s %s" % (r[0], sorted((x["p"], x["id"]) for x in items)))

    def op_locate(self):
        which, told, expect = self.opts()
        self.locate(which, told, expect, self.some_id())

    def locate(self, which, told, expect, i):
        t = self.tree()
        s = self.store(which, told, expect)
        r = call(s.object_path, i)
        p = [fy.cps(x) for x in r[1].split("/")] if r[0] == "ok" else []
        self.ev("locate", r, t, expect=expect, told=told, idc=fy.cps(i), digs=digs(i), p=p, grp="p%s:%s:%s" % (i.encode("ascii", "backslashreplace").decode(), told, expect), ans="%s %s" % (r[0], p))

    def some_id(self):
        rng = self.rng
        if rng.random() < 0.2:
            return fy.ident(rng)
        if rng.random() < 0.1:
            return fy.uuid_id(rng, "urn:uuid:")
        return rng.choice(IDS)

    def make_object(self, i=None, bad=0.0):
        """Tree of bytes of an object."""
        rng = self.rng
        if rng.random() < bad:
            c = None
            while not c:
                c = rng.choice([fv.gen_c07, fv.gen_c10, fv.gen_c09, fv.gen_c10])("root%s" % rng.random(), rng.randrange(1000))
            return c["tree"]
        d = objgen.gen(rng, nver=rng.choice([1, 1, 2, 3]))
        if i is not None:
            d["id"] = i
        return objgen.emit(objgen.obj(d))

    def do_add(self, which, told, expect, src):
        return self.store(which, told, expect).add(src)

    def do_create(self, layout, cspec, spec, lp):
        """Create the root; returns the instance which did."""
        from ocfl import StorageRoot
        s = StorageRoot(self.where(), layout_name=layout or None, spec_version=cspec or None)
        s.initialize(spec_version=spec or None, layout_params=lp)
        return s

    def op_add(self):
        rng = self.rng
        which, told, expect = self.opts()
        i = self.some_id()
        if any(0xd800 <= ord(c) <= 0xdfff for c in i) or i == "":
            i = rng.choice(IDS)
        tr = self.make_object(i, bad=self.case.get("badsrc", 0.1))
        if rng.random() < 0.1:
            x = rng.choice(["logs", "extensions", "extensions/0001-x"])
            if x not in tr["files"] and x.split("/")[0] not in tr["files"]:
                tr = scan.norm_tree({"files": dict(tr["files"]), "dirs": sorted(set(tr["dirs"]) | set([x]))})
        k = rng.random()
        if k < 0.03:
            for f in [f for f in tr["files"] if f.startswith("0=")]:
                del tr["files"][f]
        elif k < 0.06 and "0=extra" not in tr["dirs"]:
            tr["files"]["0=extra"] = b"extra\n"
        elif k < 0.08:
            tr["files"].pop("inventory.json", None)
        elif k < 0.1 and "inventory.json" not in tr["dirs"]:
            tr["files"]["inventory.json"] = rng.choice([b"", b"[]", b"{}", b'{"id": 5}', b'{"id": "x"}', b"\xff"])
        self.add(which, told, expect, tr)
        if self.evs[-1]["res"] == "ok" and rng.random() < 0.4:
            self.op_list()

    def add(self, which, told, expect, tr):
        """The object with this tree is added."""
        t = self.tree()
        self.nsrc += 1
        src = os.path.join(self.base, "src%d" % self.nsrc)
        scan.write_tree(src, tr)
        tr = scan.read_tree(src)
        o = self.pool(tr)
        ok, inv = scan.parse_json(tr["files"].get("inventory.json", b""))
        sid = inv["id"] if ok and isinstance(inv, dict) and isinstance(inv.get("id"), str) else ""
        r = call(self.do_add, which, told, expect, src)
        srcsame = scan.read_tree(src) == tr
        shutil.rmtree(src)
        p, gotid = "", ""
        if r[0] == "ok":
            gotid, p = r[1] if isinstance(r[1], tuple) else ("", "?")
        # where the library would have put it, if refused
        w = ""
        if r[0] != "ok" and sid:
            q = call(self.store("fresh", told, "").object_path, sid)
            w = q[1] if q[0] == "ok" else ""
        path = (p or w).split("/")
        self.ev("add", r, t, expect=expect, told=told, src=o, srcsame=srcsame, idc=fy.cps(sid), digs=digs(sid), gotid=gotid, p=p.split("/") if p else [],
                pc=[fy.cps(x) for x in p.split("/")] if p else [], wantp=w.split("/") if w else ["?"], wantcp=[fy.cps(x) for x in w.split("/")] if w else [],
                first0=path[0].startswith("0="), long=any(len(x.encode("utf-8", "replace")) > 255 or "\0" in x for x in path), sid=sid[:80])

    def op_create(self, layout=None, lp="?", spec="?", plain=False):
        """Create the root (it may exist)."""
        from ocfl import StorageRoot
        rng = self.rng
        if layout is None:
            layout = rng.choice(fy.NAMES + [""] * 2) if plain or rng.random() < 0.93 else rng.choice(["0004", "unknown", "0003 ", "NNNN-flat-quoted-storage-layout", "0002-flat-direct-storage-layout/", "9999"])
        if lp == "?":
            lp = None
            kind = fy.KIND.get(fy.FULL.get(layout, ""), "")
            r = rng.random()
            if layout and r < 0.5:
                conf = fy.good_conf(rng, kind)
                if rng.random() < 0.5:
                    conf["extensionName"] = fy.FULL.get(layout, layout)
                lp = json.dumps(conf)
            elif layout and r < 0.7 and not plain:
                c = fy.gen_params("r%s" % rng.random(), 0)["conf"]
                lp = json.dumps(c)
            elif layout and r < 0.8 and not plain:
                lp = rng.choice(["", "{", "[]", "null", "3", '"x"', "{'a': 1}", "{}", "[1]"])
        if spec == "?":
            spec = rng.choice(["", "", "1.0", "1.1"]) if plain or rng.random() < 0.9 else rng.choice(["1.2", "2.0", "1", "", "v1.0", "1.0 ", "1.1\n", "draft"])
        cspec = rng.choice(SPECS) if rng.random() < 0.2 and self.cspec else ""
        if self.cspec and rng.random() < 0.02 and not plain:
            cspec = rng.choice(["1.2", "x"])
        t = self.tree()
        parent = os.path.isdir(os.path.dirname(self.root))
        before = self.outside()
        r = call(self.do_create, layout, cspec, spec, lp)
        outside = self.outside() == before
        if lp is None:
            lpt = {"t": "none"}
        else:
            try:
                lpt = fy.jtok(json.loads(lp))
            except ValueError:
                lpt = {"t": "x"}
        e = self.ev("create", r, t, spec=spec, cspec=cspec, layout=layout, lp=lpt, parent=parent, outside=outside, expect="", lptext=str(lp)[:200])
        if e["res"] == "ok":
            for w in range(2):
                self.created = r[1]
                i = self.some_id()
                for s in (r[1], StorageRoot(self.where())):
                    q = call(s.object_path, i)
                    p = [fy.cps(x) for x in q[1].split("/")] if q[0] == "ok" else []
                    self.ev("locate", q, e["u"], expect="", told="", idc=fy.cps(i), digs=digs(i), p=p, grp="c%d" % w + i.encode("ascii", "backslashreplace").decode(), ans="%s %s" % (q[0], p), opn=str(w))
        return e

    # --- generation of a root by hand ---
    def put(self, p, b=b"x\n"):
        q = os.path.join(self.root, p)
        d = os.path.dirname(q)
        while not os.path.isdir(d):
            if os.path.lexists(d):
                return False
            try:
                os.makedirs(d)
            except OSError:
                return False
        if os.path.lexists(q):
            return False
        with open(q, "wb") as fh:
            fh.write(b)
        return True

    def mk(self, p):
        q = os.path.join(self.root, p)
        try:
            os.makedirs(q)
        except OSError:
            pass

    def handmade(self, nobj=None, bad=0.2, dev=None):
        rng = self.rng
        os.makedirs(self.root)
        self.spec = rng.choice(SPECS)
        self.put("0=ocfl_" + self.spec, b"ocfl_%s\n" % self.spec.encode())
        if rng.random() < 0.75:
            name = rng.choice(fy.NAMES)
            self.put("ocfl_layout.json", json.dumps({"extension": name, "description": rng.choice(["d", "", "ünï"]), **({"more": 1} if rng.random() < 0.2 else {})}).encode())
            kind = fy.KIND[fy.FULL[name]]
            if rng.random() < 0.6 and kind in CONFKINDS:
                conf = fy.good_conf(rng, kind)
                conf["extensionName"] = fy.FULL[name]
                self.put("extensions/%s/config.json" % fy.FULL[name], json.dumps(conf).encode())
        for _ in range(rng.randint(0, 4) if nobj is None else nobj):
            p = rng.choice(SPOTS)
            parts = p.split("/")
            if any(os.path.isdir(os.path.join(self.root, *parts[:n])) and any(not os.path.isdir(os.path.join(self.root, *parts[:n], x)) for x in os.listdir(os.path.join(self.root, *parts[:n])))
                   for n in range(1, len(parts) + 1)) or os.path.lexists(os.path.join(self.root, p)):
                continue
            tr = self.make_object(rng.choice(IDS), bad=bad)
            if tr["files"]:
                scan.write_tree(os.path.join(self.root, p), tr)
        if rng.random() < 0.3:
            self.put(rng.choice(["README.txt", "ocfl_1.1.html", "x.bin", ".DS_Store"]))
        if rng.random() < 0.3:
            self.mk("extensions/" + rng.choice(["0008-schema-registry", "local-ext", "0004-hashed-n-tuple-storage-layout"]))
        if rng.random() < 0.15:
            self.put("extensions/local-ext/" + rng.choice(["config.json", "sub/f", "f"]), rng.choice([b"{}", b"x"]))
        devs = []
        for _ in range(rng.choice([0, 0, 1, 1, 1, 2]) if dev is None else dev):
            devs.append(self.deviate())
        return devs

    def anydir(self):
        rng = self.rng
        ds = [os.path.relpath(os.path.join(dp, d), self.root) for dp, dn, fn in os.walk(self.root) for d in dn]
        ds = [d for d in ds if d.split("/")[0] != "extensions"]
        return rng.choice(ds) if ds and rng.random() < 0.7 else rng.choice(["n", "n/m", "a", "a/b", "x/y/z"])

    def deviate(self, kinds=None):
        rng = self.rng
        k = rng.choice(kinds) if kinds else rng.choice(["stray", "stray", "strayobj", "emptydir", "emptydir", "nodecl", "twodecl", "foreign", "badver", "extfile", "rootdecl", "rootdecl", "layout", "layout", "config", "config",
                        "rootasobject", "nested", "uppercase"])
        R = self.root
        if k == "stray":
            d = self.anydir()
            self.put(d + "/" + rng.choice(["stray.txt", "inventory.json", ".keep", "0", "=0", "1=ocfl_object_1.0", "00=x"]))
        elif k == "strayobj":
            scan.write_tree(os.path.join(R, "s", "t"), {"files": {"f": b"x", "g/h": b"y"}, "dirs": []})
        elif k == "emptydir":
            self.mk(rng.choice(["e", "a/e", "x/y/e", "e1/e2/e3", "extensions2"]) if rng.random() < 0.7 else self.anydir() + "/em")
        elif k in ("nodecl", "twodecl", "foreign", "badver"):
            p = rng.choice(["q", "q/r", "q/r/s/t", "a/q"])
            tr = self.make_object("odd")
            ds = [f for f in tr["files"] if f.startswith("0=")]
            if k == "twodecl":
                n = rng.choice(["0=ocfl_object_1.0", "0=ocfl_object_1.1", "0=ocfl_1.0", "0=x", "0="])
                if n not in tr["files"]:
                    tr["files"][n] = n[2:].encode() + b"\n"
            else:
                for f in ds:
                    del tr["files"][f]
                if k == "foreign":
                    n = rng.choice(["0=ocfl_1.1", "0=ocfl_1.0", "0=bagit", "0=", "0=ocfl_object_", "0=ocfl_object_1.1x", "0=ocfl_object_x", "0=OCFL_OBJECT_1.1", "0=ocfl_object_1.0\n", "0= ocfl_object_1.1",
                                    "0=ocfl_object_\u0661.\u0660", "0=ocfl_object_1"])
                    tr["files"][n] = n[2:].encode() + b"\n"
                elif k == "badver":
                    n = rng.choice(["0=ocfl_object_1.2", "0=ocfl_object_2.0", "0=ocfl_object_0.9", "0=ocfl_object_1.10", "0=ocfl_object_11.0", "0=ocfl_object_01.0"])
                    tr["files"][n] = n[2:].encode() + b"\n"
            if not os.path.lexists(os.path.join(R, p)):
                try:
                    scan.write_tree(os.path.join(R, p), tr)
                except OSError:
                    pass
        elif k == "extfile":
            self.put("extensions/" + rng.choice(["f.txt", "README", "config.json", "0002-flat-direct-storage-layout", ".x"]))
        elif k == "rootdecl":
            m = rng.choice(["drop", "two", "content", "content", "version", "object", "nonl", "crlf", "extra"])
            f = os.path.join(R, "0=ocfl_" + self.spec)
            if not os.path.exists(f):
                return k
            if m == "drop":
                os.unlink(f)
            elif m == "two":
                self.put(rng.choice(["0=ocfl_1.0", "0=ocfl_1.1", "0=ocfl_object_1.0", "0=x"]), b"x\n")
            elif m == "version":
                os.rename(f, os.path.join(R, rng.choice(["0=ocfl_1.2", "0=ocfl_2.0", "0=ocfl_", "0=ocfl", "0=ocfl_1.1.", "1=ocfl_1.1"])))
            elif m == "object":
                os.rename(f, os.path.join(R, "0=ocfl_object_" + self.spec))
            else:
                b = {"content": rng.choice([b"", b"ocfl_1.2\n", b"\xff\xfe", b"ocfl_object_1.0\n", b"x" * 5000]), "nonl": b"ocfl_" + self.spec.encode(), "crlf": b"ocfl_%s\r\n" % self.spec.encode(),
                     "extra": b"ocfl_%s\nmore\n" % self.spec.encode()}[m]
                with open(f, "wb") as fh:
                    fh.write(b)
        elif k == "layout":
            x = {"extension": rng.choice(fy.NAMES + ["unknown", "0004-hashed-n-tuple-storage-layout"]), "description": "d"}
            m = rng.choice(["noext", "nodesc", "ext", "desc", "unknown", "notobj", "notjson", "bytes", "empty", "null"])
            if m == "noext":
                del x["extension"]
            elif m == "nodesc":
                del x["description"]
            elif m in ("ext", "desc"):
                x[{"ext": "extension", "desc": "description"}[m]] = rng.choice([None, 1, True, [], {}, ["0003"], 0.5])
            elif m == "unknown":
                x["extension"] = rng.choice(["unknown", "", "0004-hashed-n-tuple-storage-layout", "0003-HASH-and-id-n-tuple-storage-layout", "0002 "])
            b = {"notobj": rng.choice([b"[]", b'"0003"', b"3", b'["extension", "description"]']), "notjson": rng.choice([b"{", b"extension: x", b"{'extension': 'x'}"]), "bytes": b"\xff\x00",
                 "empty": b"", "null": b"null"}.get(m, json.dumps(x).encode())
            with open(os.path.join(R, "ocfl_layout.json"), "wb") as fh:
                fh.write(b)
        elif k == "config":
            c = fy.gen_params("c%s" % rng.random(), 0)
            with open(os.path.join(R, "ocfl_layout.json"), "wb") as fh:
                fh.write(json.dumps({"extension": c["layout"], "description": "d"}).encode())
            p = os.path.join(R, "extensions", fy.FULL[c["layout"]])
            os.makedirs(p, exist_ok=True)
            with open(os.path.join(p, "config.json"), "wb") as fh:
                fh.write(json.dumps(c["conf"]).encode() if rng.random() < 0.8 else rng.choice([b"", b"{", b"[]", b"null", b'"x"', b"\xff", b"3"]))
        elif k == "nested":
            tr = self.make_object("nested")
            ds = [d for d in self.objdirs()]
            if ds:
                p = os.path.join(rng.choice(ds), rng.choice(["sub", "v1/o", "logs/o", "extensions/x/o"]))
                if not os.path.lexists(os.path.join(R, p)):
                    scan.write_tree(os.path.join(R, p), tr)
        elif k == "rootasobject":
            scan.write_tree(os.path.join(R, "rr"), {"files": {"0=ocfl_1.1": b"ocfl_1.1\n", "ocfl_layout.json": b"{}", "o/0=ocfl_object_1.0": b"ocfl_object_1.0\n"}, "dirs": []})
        return k

    def objdirs(self):
        return [os.path.relpath(dp, self.root) for dp, dn, fn in os.walk(self.root) if dp != self.root and any(f.startswith("0=ocfl_object") for f in fn)]

    # --- modes ---
    def go(self):
        getattr(self, "mode_" + self.case["mode"])()
        return {"kind": self.case["mode"], "objs": self.objs, "trees": self.trees, "lax": self.lax, "evs": self.evs}

    def mode_validate(self):
        rng = self.rng
        self.devs = self.handmade()
        if rng.random() < 0.3:      # something wrong, then put right again
            before = scan.read_tree(self.root)
            self.devs.append(self.deviate(["stray", "strayobj", "emptydir", "emptydir", "nodecl", "twodecl", "foreign", "badver", "nested", "uppercase", "extfile"]))
            for _ in range(rng.randint(1, 3)):
                rng.choice([self.op_validate, self.op_validate, self.op_list])()
            shutil.rmtree(self.root)
            scan.write_tree(self.root, before)
            self.op_validate()
        for _ in range(rng.randint(3, 6)):
            rng.choice([self.op_validate, self.op_validate, self.op_list, self.op_locate])()
        if rng.random() < 0.5:
            self.devs.append(self.deviate())
            for _ in range(rng.randint(2, 4)):
                rng.choice([self.op_validate, self.op_validate, self.op_list])()

    def mode_add(self):
        rng = self.rng
        if rng.random() < 0.6:
            self.op_create(plain=True)
        else:
            self.handmade(dev=rng.choice([0, 0, 0, 1]), bad=0.1)
        if self.tree() == 0:
            return
        for _ in range(rng.randint(3, 9)):
            rng.choice([self.op_add] * 6 + [self.op_list] * 2 + [self.op_validate, self.op_locate])()
        self.op_list()
        self.op_validate()

    def mode_create(self):
        rng = self.rng
        self.created = None
        r = rng.random()
        if r < 0.1:
            k = rng.choice(["dir", "file", "root", "full"])
            if k == "dir":
                os.makedirs(self.root)
            elif k == "file":
                with open(self.root, "w") as fh:
                    fh.write("x")
            elif k == "root":
                self.handmade(nobj=0, dev=0)
            else:
                os.makedirs(self.root)
                self.put("f")
        elif r < 0.16:
            self.root = os.path.join(self.area, "missing", "root")
        elif r < 0.2:
            with open(os.path.join(self.area, "file"), "w") as fh:
                fh.write("x")
            self.root = os.path.join(self.area, "file", "root")
        elif r < 0.4:
            os.makedirs(os.path.join(self.area, "other"))
            self.root = os.path.join(self.area, rng.choice(["ünï", "sp ace", "root.d", "a%20b", "-x", "0=root", "other/root", "{x}", "x+y"]))
        e = self.op_create()
        if e["res"] == "ok":
            for _ in range(rng.randint(1, 3)):
                rng.choice([self.op_validate, self.op_list, self.op_add])()
            if rng.random() < 0.2:
                self.op_create()


def gen(mode, **more):
    def g(seed, i):
        rng = random.Random("%s/root/%s/%d" % (seed, mode, i))
        return {"desc": "root:%s" % mode, "rng": rng.random(), "mode": mode, **more}
    return g


def run(case, cls=RTrace):
    with runner.Dir() as base:
        t = cls(case, base)
        r = t.go()
    r["_info"] = [{k: v for k, v in e.items() if k not in ("digs", "idc")} for e in r["evs"]]
    return [r]
