"""The same objects and storage roots on different kinds of storage."""
import os
import random

import backends
import fam_life as fl
import fam_root as fr
import fam_valid as fv
import objgen
import runner
import scan
import sut

HUGE = bytes((i * 11 + i // 4093) % 256 for i in range(256 * 1024 * 2 + 777))


def sized(rng):
    """Contents around the sizes of the buffers."""
    n = rng.choice([8192, 65536, 131072, 256 * 1024, 256 * 1024, 512 * 1024, 300000]) + rng.choice([-1, 0, 1, 777])
    return HUGE[:n] if n <= len(HUGE) else HUGE


# --- validation of objects ---
def gen_object(seed, i):
    rng = random.Random("back-%s-%d" % (seed, i))
    k = rng.random()
    c = None
    if k < 0.3:
        c = {"tree": objgen.emit(objgen.obj(objgen.gen(rng))), "desc": "good", "lax": False, "dig": True}
    elif k < 0.45:
        c = large(rng)
    else:
        g = rng.choice([fv.gen_c07, fv.gen_c09, fv.gen_c10, fv.gen_c10])
        while not c:
            c = g("back%s" % rng.random(), rng.randrange(2000))
    c["rng"] = rng.random()
    return c


def large(rng):
    """An object with files larger than the buffers, perhaps altered late in a file."""
    d = objgen.gen(rng, nver=rng.choice([1, 2]), simple=True)
    b = sized(rng)
    old = sorted(d["content"])
    desc = "large"
    if old:
        # every occurrence of one content is replaced by a large one
        was = d["content"][rng.choice(old)]
        sub = lambda x: b if x == was else x  # noqa: E731
        d["content"] = {p: sub(x) for p, x in d["content"].items()}
        d["states"] = [{p: sub(x) for p, x in s.items()} for s in d["states"]]
    o = objgen.obj(d)
    msg = rng.random() < 0.4
    if msg:
        o["root"]["versions"][o["root"]["head"]]["message"] = "m" * (len(b))
    t = objgen.emit(o)
    k = rng.random()
    if msg and k > 0.7:
        # the version's inventory is as long as the root's and differs late in it only
        h = o["root"]["head"]
        x = t["files"]["inventory.json"]
        n = x.rfind(b"m" * 20) + 10 if b"m" * 20 in x else -1
        if n > 0:
            y = x[:n] + b"n" + x[n + 1:]
            a = objgen.inv_alg(o["root"])
            if rng.random() < 0.5:
                t["files"][h + "/inventory.json"] = y
                if rng.random() < 0.5:
                    t["files"][h + "/inventory.json." + a] = objgen.sidecar(y, a)
            else:
                t["files"]["inventory.json"] = y
                t["files"]["inventory.json." + a] = objgen.sidecar(y, a)
        return {"tree": t, "desc": desc + " late", "lax": False, "dig": True}
    if k < 0.6:
        fs = [p for p in t["files"] if len(t["files"][p]) > 8000] or sorted(t["files"])
        p = rng.choice(sorted(fs))
        x = t["files"][p]
        if k < 0.2 and x:
            n = rng.choice([len(x) - 1, len(x) - 2, len(x) // 2, min(len(x) - 1, 256 * 1024), max(0, min(len(x), 256 * 1024) - 1)])
            if "inventory" in p.split("/")[-1]:     # keep it JSON
                n = x.rfind(b"m" * 20) + 10 if b"m" * 20 in x else 0
            t["files"][p] = x[:n] + (b"n" if x[n:n + 1] == b"m" else bytes([x[n] ^ 1])) + x[n + 1:]
            desc += " changed"
        elif k < 0.4:
            t["files"][p] = x + b" "
            desc += " longer"
        else:
            t["files"][p] = x[:256 * 1024] if len(x) > 256 * 1024 else x[:-1]
            desc += " cut"
    return {"tree": t, "desc": desc, "lax": False, "dig": True}


def run_object(c):
    rng = random.Random(c["rng"])
    t = c["tree"]
    outs = []
    with runner.Dir() as d:
        for kind in backends.KINDS:
            if not backends.suits(kind, t):
                continue
            url, fs = backends.put(kind, t, d, rng)
            for where in ([fs] if url is None else [url, fs]):
                o = sut.validate_object(where, check_digests=c["dig"], lax_digests=c["lax"])
                o["how"] = kind + ("-url" if where is url else "")
                o["grp"] = "same"
                outs.append(o)
            if url is not None and rng.random() < 0.5:
                o = sut.object_validate(url, lax=c["lax"], dig=c["dig"])
                o["how"] = kind + "-object"
                outs.append(o)
            if kind in ("local", "reversed", "shuffled"):
                a = scan.read_tree(fs.path)
            elif kind == "memory":
                a = backends.contents(fs)
            else:
                a = t
            if a["files"] != t["files"] or a["dirs"] != t["dirs"]:
                outs.append({"how": kind, "grp": "", "v": "wrote", "codes": []})
        backends.wipe()
    return [{"kind": "obj", "tree": scan.ast(t), "lax": c["lax"], "dig": c["dig"], "dflt": "1.1", "forced": "", "outs": outs,
             "_info": [(o["how"], o["v"], o["codes"], o.get("exc", "")) for o in outs]}]


# --- reading and extracting ---
class BTrace(fl.LTrace):
    """Reading and extraction from a copy on storage of another kind, and
    writing with other listing orders."""

    def copy(self):
        t = scan.read_tree(self.objdir)
        kinds = [k for k in ("memory", "objects", "zip", "zipplain", "local") if backends.suits(k, t)]
        for _ in range(20):
            url, _fs = backends.put(self.rng.choice(kinds), t, self.area(), self.rng)
            if url is not None:
                return url
        return self.objdir

    def area(self):
        d = os.path.join(os.path.dirname(self.base), "copies")
        os.makedirs(d, exist_ok=True)
        return d

    def where(self):
        return self.copy() if os.path.isdir(self.objdir) and self.rng.random() < 0.9 else self.objdir

    def do_extract(self, ver, dst):
        w = self.where()
        return self.handle(self.settings()).extract(w, ver, dst)

    def do_extractfile(self, ver, dst, lp):
        w = self.where()
        return self.handle(self.settings()).extract_file(w, ver, dst, lp)

    def op_read(self):
        keep = self.objdir
        if os.path.isdir(keep):
            w = self.where()
            import ocfl
            real = ocfl.Object

            def other(*a, **k):
                if k.get("path") == keep:
                    k["path"] = w
                return real(*a, **k)
            ocfl.Object = other
            try:
                super().op_read()
            finally:
                ocfl.Object = real
        else:
            super().op_read()


def gen_life(profile, **kw):
    g0 = fl.gen(profile, **kw)

    def g(seed, i):
        c = g0(seed, i)
        rng = random.Random("order-%s-%d" % (seed, i))
        c["order"] = rng.choice(["local", "reversed", "shuffled"])
        c["desc"] += " " + c["order"]
        return c
    return g


def run_life(case):
    with runner.Dir() as top:
        base = os.path.join(top, "base")
        os.makedirs(base)
        with backends.listing(case["order"]):
            t = BTrace(case, base)
            if case.get("big"):
                t.contents[-1] = sized(t.rng)
                t.intern.add(t.contents[-1])
            r = t.go()
        backends.wipe()
    r["_info"] = fl.brief(r["steps"])
    return [r]


# --- storage roots ---
class BRoot(fr.RTrace):
    """The root is made locally; then it is looked at on other storage."""
    elsewhere = None

    def where(self):
        return self.elsewhere or self.root

    def store(self, which="fresh", told="", expect=""):
        return super().store("fresh", told, expect)

    def away(self):
        if not os.path.isdir(self.root):
            return
        t = scan.read_tree(self.root)
        kinds = [k for k in ("memory", "objects", "zip", "zipplain") if backends.suits(k, t)]
        for _ in range(20):
            url, _fs = backends.put(self.rng.choice(kinds), t, os.path.join(os.path.dirname(self.base), "copies"), self.rng)
            if url is not None:
                self.elsewhere = url
                return

    def look(self, fn):
        self.away()
        try:
            with backends.listing("local" if self.elsewhere else self.rng.choice(["local", "reversed", "shuffled"])):
                fn()
        finally:
            self.elsewhere = None
            backends.wipe()

    def op_validate(self):
        self.look(super().op_validate)
        if self.rng.random() < 0.5:
            self.look(super().op_validate)

    def op_list(self):
        self.look(super().op_list)
        if self.rng.random() < 0.5:
            self.look(super().op_list)

    def op_locate(self):
        self.look(super().op_locate)


def gen_root(mode):
    return fr.gen(mode, back=1)


def run_root(case):
    with runner.Dir() as top:
        base = os.path.join(top, "base")
        os.makedirs(base)
        os.makedirs(os.path.join(top, "copies"))
        t = BRoot(case, base)
        r = t.go()
    r["_info"] = [{k: v for k, v in e.items() if k not in ("digs", "idc")} for e in r["evs"]]
    return [r]
