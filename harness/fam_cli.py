"""The command line tools: what they print, their exit status and their effect
on storage (C22)."""
import json
import os
import random
import re

import cli
import fam_layout as fy
import fam_life as fl
import fam_root as fr
import fam_valid as fv
import invmut
import objgen
import runner
import scan

FORM_OBJ = re.compile(r"0=ocfl_object_[0-9]+\.[0-9]+", re.ASCII)
FORM_ROOT = re.compile(r"0=ocfl_[0-9]+\.[0-9]+", re.ASCII)
LOOSE = re.compile(r"0=ocfl(_object)?_\d+\.\d+$")


def form(name):
    if FORM_OBJ.fullmatch(name):
        return "object"
    if FORM_ROOT.fullmatch(name):
        return "root"
    return "odd" if LOOSE.match(name) else "other"


# ---------------------------------------------------------------- ocfl-validate.py
class VCase:
    """One or more invocations of ocfl-validate.py on several paths."""

    def __init__(self, case, base):
        self.case, self.base = case, base
        self.rng = random.Random(case["rng"])
        self.area = os.path.join(base, "area")
        os.makedirs(self.area)
        self.rt = fr.RTrace(dict(case, mode="validate"), os.path.join(base, "rt"))
        self.evs = []
        self.n = 0

    def place(self):
        self.n += 1
        return os.path.join(self.area, self.rng.choice(["p%d", "a b%d", "ünï%d", "d/e%d", "VALID%d", "-x%d"]) % self.n)

    def directory(self, path):
        t = scan.read_tree(path)
        decls = [{"name": p, "form": form(p)} for p in sorted(t["files"]) if "/" not in p and p.startswith("0=")]
        decls += [{"name": p, "form": "odd"} for p in t["dirs"] if "/" not in p and p.startswith("0=")]
        forms = set(d["form"] for d in decls)
        r = {"k": "dir", "decls": decls, "o": 0, "t": 0}
        if "object" in forms or "odd" in forms:
            r["o"] = self.rt.pool(t)
        if "root" in forms:
            self.rt.root = path
            r["t"] = self.rt.tree()
        return r

    def tree_object(self):
        rng = self.rng
        c = None
        while not c:
            k = rng.choice(["good", "good", "good", fv.gen_c07, fv.gen_c07, fv.gen_c09, fv.gen_c10, fv.gen_c10])
            if k == "good":
                d = objgen.gen(rng)
                c = {"tree": objgen.emit(objgen.obj(d))}
            else:
                c = k("cli%s" % rng.random(), rng.randrange(1000))
        return c["tree"]

    def make(self):
        """(path, record)"""
        rng = self.rng
        k = rng.choice(["object"] * 6 + ["root"] * 3 + ["inv"] * 4 + ["decl", "decl", "misc"])
        p = self.place()
        if k == "object":
            scan.write_tree(p, self.tree_object())
            return p, self.directory(p)
        if k == "root":
            os.makedirs(os.path.dirname(p), exist_ok=True)
            self.rt.root = p
            self.rt.handmade(nobj=rng.choice([0, 1, 1, 2]))
            return p, self.directory(p)
        if k == "inv":
            os.makedirs(os.path.dirname(p), exist_ok=True)
            d = objgen.gen(rng)
            inv = objgen.inventory(d, d["nv"])
            if rng.random() < 0.5:
                _, inv = invmut.mutate(rng, inv, 1)
            b = objgen.dump(inv)
            if rng.random() < 0.12:
                b = rng.choice([b"", b"{}", b"[]", b"null", b"\xff", b"{", b"inventory\n", b"7"])
            if rng.random() < 0.3:
                p = os.path.join(p, "inventory.json")
                os.makedirs(os.path.dirname(p))
            with open(p, "wb") as fh:
                fh.write(b)
            ok, _ = scan.parse_json(b)
            return p, {"k": "file", "j": scan.jval_bytes(b, self.rt.intern), "jok": ok}
        if k == "decl":
            t = self.tree_object()
            m = rng.choice(["drop", "two", "foreign", "root", "emptydir", "both", "odd"])
            fs = {f: b for f, b in t["files"].items() if not ("/" not in f and f.startswith("0="))}
            if m == "drop":
                t = {"files": fs, "dirs": t["dirs"]}
            elif m == "two":
                t["files"][rng.choice(["0=ocfl_object_1.0", "0=ocfl_object_1.1", "0=bagit_1", "0=a"])] = b"x\n"
            elif m == "foreign":
                n = rng.choice(["0=bagit_0.97", "0=ocfl", "0=ocfl_object", "0=ocfl_object_1", "0=ocfl_object_1.1.1", "0=xocfl_object_1.0", "0=OCFL_1.0", "0=ocfl_object_1.0 "])
                t = {"files": dict(fs, **{n: n[2:].encode() + b"\n"}), "dirs": t["dirs"]}
            elif m == "root":
                t = {"files": dict(fs, **{"0=ocfl_1.1": b"ocfl_1.1\n"}), "dirs": t["dirs"]}
            elif m == "both":
                t["files"]["0=ocfl_1.0"] = b"ocfl_1.0\n"
            elif m == "odd":
                n = rng.choice(["0=ocfl_object_1.0\n", "0=ocfl_1.1\n"])
                t = {"files": dict(fs, **{n: n[2:].encode() + b"\n"}), "dirs": t["dirs"]}
            else:
                t = {"files": {}, "dirs": rng.choice([[], ["x"], ["0=ocfl_object_1.0"]])}
            scan.write_tree(p, t)
            return p, self.directory(p)
        m = rng.choice(["missing", "noparent", "text", "json"])
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if m == "missing":
            return p, {"k": "missing"}
        if m == "noparent":
            return os.path.join(p, "x", "y"), {"k": "missing"}
        with open(p, "wb") as fh:
            fh.write(b"text\n" if m == "text" else b'{"a": 1}')
        with open(p, "rb") as fh:
            b = fh.read()
        return p, {"k": "file", "j": scan.jval_bytes(b, self.rt.intern), "jok": scan.parse_json(b)[0]}

    def spell(self, p, cwd, r):
        rng = self.rng
        x = rng.random()
        if cwd and x < 0.7:
            q = os.path.relpath(p, cwd)
            if q.startswith("-") or rng.random() < 0.2:
                q = "./" + q
        else:
            q = p
        if r["k"] == "dir" and rng.random() < 0.15:
            q += "/"
        return q

    def go(self):
        rng = self.rng
        n = rng.choice([1, 1, 1, 2, 2, 3, 5])
        items = [self.make() for _ in range(n)]
        lax, dig = rng.random() < 0.15, rng.random() < 0.85
        before = {p: scan.read_tree(p) for p, r in items if r["k"] == "dir"}
        for _ in range(rng.choice([1, 1, 2])):
            cwd = self.area if rng.random() < 0.4 else os.path.dirname(items[0][0]) if n == 1 and rng.random() < 0.5 and os.path.isdir(os.path.dirname(items[0][0])) else None
            args = ["--lax-digests"] * lax + ["--no-check-digests"] * (not dig)
            loud = rng.choice(["", "", "", "-q", "-Q", "-v", "--debug"])
            args += [loud] if loud else []
            spelt = [self.spell(p, cwd, r) for p, r in items]
            x = cli.run("ocfl-validate.py", args + ["--"] + spelt, cwd=cwd, real=rng.random() < 0.03)
            pr, other = cli.verdicts(x.out)
            self.evs.append({"op": "validate", "paths": [dict(r, path=q) for (p, r), q in zip(items, spelt)], "printed": pr, "other": other, "rc": x.rc, "tb": x.tb, "very": loud == "-Q",
                             "dig": dig, "args": args, "err": x.err[-300:] if x.tb else "", "same": before == {p: scan.read_tree(p) for p, r in items if r["k"] == "dir"}})
            if rng.random() < 0.5:
                rng.shuffle(items)
        return {"kind": "validate", "objs": self.rt.objs, "trees": self.rt.trees, "lax": lax, "evs": self.evs}


def validate_gen(seed, i):
    rng = random.Random("%s/cli/validate/%d" % (seed, i))
    return {"desc": "cli:validate", "rng": rng.random()}


def validate_run(case):
    with runner.Dir() as base:
        r = VCase(case, base).go()
    r["_info"] = r["evs"]
    return [r]


# ---------------------------------------------------------------- ocfl-sidecar.py
def sidecar_gen(seed, i):
    rng = random.Random("%s/cli/sidecar/%d" % (seed, i))
    return {"desc": "cli:sidecar", "rng": rng.random()}


def sidecar_run(case):
    rng = random.Random(case["rng"])
    with runner.Dir() as base:
        dirs, args = [], []
        intern = scan.Intern()
        for n in range(rng.choice([1, 1, 2, 3])):
            d = objgen.gen(rng)
            o = objgen.obj(d)
            k = rng.choice(["good"] * 6 + ["lax", "mut", "broken", "none", "stale"])
            if k == "lax":
                o["root"]["digestAlgorithm"] = rng.choice(["md5", "sha1", "blake2b-512", "blake2b-160", "x", 5])
            elif k == "mut":
                _, o["root"] = invmut.mutate(rng, o["root"], 1)
            try:
                t = objgen.emit(o)
            except Exception:  # beyond what the generator can write
                t = objgen.emit(objgen.obj(d))
                t["files"]["inventory.json"] = objgen.dump(o["root"])
            if k == "broken":
                t["files"]["inventory.json"] = rng.choice([b"", b"[]", b"{", b"\xff"])
            elif k == "none":
                t["files"].pop("inventory.json")
            elif k == "stale":
                for f in list(t["files"]):
                    if re.fullmatch(r"inventory\.json\..*", f):
                        t["files"][f] = b"0 x\n" * 400
            for f in list(t["files"]):
                if re.fullmatch(r"inventory\.json\..*", f) and rng.random() < 0.5:
                    del t["files"][f]
            p = os.path.join(base, rng.choice(["o%d", "a b%d", "ünï%d"]) % n)
            scan.write_tree(p, t)
            dirs.append(p)
        want = []
        cwd = None
        if len(dirs) == 1 and rng.random() < 0.2:
            cwd = dirs[0]
            x = rng.choice([[], ["inventory.json"], ["."], ["./inventory.json"]])
            args += x
            want = [True]
        else:
            for p in dirs:
                x = rng.choice([p, p, p + "/", p + "/inventory.json", p + "/inventory.json", p + "/other.json"])
                args.append(x)
                want.append(not x.endswith("other.json"))
        alg = rng.choice(["", "", "", "sha512", "sha256", "md5", "sha1", "blake2b-512", "blake2b-160", "nope"])
        if alg:
            args = ["--digest", alg] + args
        before = [scan.read_tree(p) for p in dirs]
        x = cli.run("ocfl-sidecar.py", args, cwd=cwd, real=rng.random() < 0.03)
        after = [scan.read_tree(p) for p in dirs]
        for t in before + after:
            for f in t["files"].values():
                intern.add(f)
        trees = [scan.ast(t, intern) for t in before] + [scan.ast(t, intern) for t in after]
    n = len(dirs)
    # after a failure for one directory those after it may not have been dealt with
    e = {"op": "sidecar", "dirs": [{"t": k + 1, "u": n + k + 1, "asked": want[k]} for k in range(n)], "alg": alg, "rc": x.rc, "tb": x.tb, "args": args, "err": x.err[-300:],
         "written": [line for line in x.out.split("\n") if line.startswith("Written")]}
    return [{"kind": "sidecar", "objs": trees, "trees": [], "lax": False, "evs": [e], "_info": [e]}]


# ---------------------------------------------------------------- ocfl-object.py
class Refused(Exception):
    pass


class CTrace(fl.LTrace):
    """Life of an object through ocfl-object.py."""

    def tool(self, args):
        self.x = cli.run("ocfl-object.py", args, real=self.rng.random() < 0.02, env={"OCFL_ROOT": "/nowhere"})
        if self.x.rc != 0:
            raise Refused(self.x.err[-300:])
        return self.x

    def record(self, op, fn, allowed=None, **ev):
        self.x = None
        ev, r = super().record(op, fn, allowed=allowed, **ev)
        if self.x is not None:
            ev["tb"] = self.x.tb
        return ev, r

    def common(self, s):
        a = ["--no-forward-delta"] * (not s["fwd"]) + ["--no-dedupe"] * (not s["dedupe"]) + ["--lax-digests"] * bool(self.lax)
        if s["norm"] != "none":
            a.append("--normalization=" + s["norm"])
        return a + self.rng.choice([[], [], ["-q"], ["-v"]])

    @staticmethod
    def metaargs(m):
        return ["--%s=%s" % (k, m[k]) for k in ("created", "message", "name", "address") if m[k] is not None]

    def limit(self, e):
        if "cd" in e:
            e["cd"] = "content"
        else:
            e["alg"] = e["alg"] or "sha512"
            e["abort"] = False
            if e["fixset"] and not e["fixalgs"]:
                e["fixset"] = False
            if not e["hassrc"]:
                e["hassrc"], e["nosrc"] = True, True

    def prepare_build(self, sd, metas):
        vs = {}
        for n, m in enumerate(metas):
            b = {k: m[k] for k in ("created", "message") if m[k] is not None}
            u = {k: m[k] for k in ("name", "address") if m[k] is not None}
            vs["v%d" % (n + 1)] = dict(b, user=u) if u else b
        with open(sd + ".json", "w", encoding="utf-8") as fh:
            json.dump({"head": "v%d" % len(metas), "versions": vs}, fh)

    def do_create(self, e, build, sd, metas, fix):
        a = ["build" if build else "create", "--id=" + e["id"], "--spec-version=" + e["spec"], "--digest=" + e["alg"], "--srcdir=" + sd] + self.common(e)
        a += ["--fixity=" + f for f in fix or []]
        if not e["dry"]:
            a.append("--objdir=" + self.objdir)
        if build:
            a.append("--metadata=" + self.rng.choice([sd + ".json", os.path.relpath(sd + ".json")]))
        else:
            a += self.metaargs(metas[0])
        x = self.tool(a)
        if e["dry"]:
            import ocfl
            return ocfl.Inventory(json.loads(x.out[x.out.index("\n") + 1:]))
        return None

    def do_update(self, e, s, sd, meta):
        a = ["update", "--objdir=" + self.objdir, "--digest=" + e["alg"]] + self.common(s) + self.metaargs(meta)
        if sd is not None:
            a.append("--srcdir=" + sd)
        a += ["--fixity=" + f for f in e["fixalgs"]] if e["fixset"] else []
        x = self.tool(a)
        m = re.search(r"^Updated object (.*) to (v\d+)$", x.out, re.M | re.S)
        self.said = {"id": m.group(1), "head": m.group(2)} if m else {"id": "", "head": ""}
        return self.said

    def op_update(self):
        self.said = None
        super().op_update()
        if self.said is not None:
            self.steps[-1]["said"] = self.said

    def meta_of_version(self, ver):
        """What extraction through the library would report (it is not printed)."""
        import ocfl
        i = self.inv()
        m = ocfl.VersionMetadata()
        v = i["versions"][i["head"] if ver == "head" else ver]
        m.created, m.message = v.get("created"), v.get("message")
        u = v.get("user") or {}
        m.name, m.address = u.get("name"), u.get("address")
        return m

    def do_extract(self, ver, dst):
        x = self.tool(["extract", "--objdir=" + self.objdir, "--objver=" + ver, "--dstdir=" + dst] + self.common({"fwd": True, "dedupe": True, "norm": "none"}))
        m = re.search(r"^Extracted content for (v\d+) in ", x.out, re.M)
        self.steps_said = m.group(1) if m else "?"
        return self.meta_of_version(ver)

    def do_extractfile(self, ver, dst, lp):
        if lp == "":
            raise Refused("not to be asked")
        x = self.tool(["extract", "--objdir=" + self.objdir, "--objver=" + ver, "--dstdir=" + dst, "--logical-path=" + lp] + self.common({"fwd": True, "dedupe": True, "norm": "none"}))
        m = re.search(r" in (v\d+) to ", x.out)
        self.steps_said = m.group(1) if m else "?"
        return self.meta_of_version(ver)

    def op_validate(self):
        """ocfl-object.py validate and show."""
        def fn():
            self.x = cli.run("ocfl-object.py", ["validate", "--objdir=" + self.objdir] + ["--lax-digests"] * bool(self.lax))
            pr, _ = cli.verdicts(self.x.out)
            return self.x.rc, [p["v"] for p in pr if p["typ"] == "object"]
        ev, r = self.record("validate", fn)
        ev["said"] = {"rc": r[1][0], "v": r[1][1]}

        def show():
            self.x = cli.run("ocfl-object.py", ["show", "--objdir=" + self.objdir] + ["--lax-digests"] * bool(self.lax))
        self.record("validate", show)


def life_gen(seed, i):
    return dict(fl.gen("cli", length=8, bad=0.15)(seed, i), desc="cli:object")


def life_run(case):
    with runner.Dir() as base:
        r = CTrace(case, base).go()
    r["_info"] = fl.brief(r["steps"])
    return [r]


# ---------------------------------------------------------------- ocfl-root.py
class CRTrace(fr.RTrace):
    def tool(self, cmd, args, told=""):
        rng = self.rng
        env = {}
        a = [cmd]
        if rng.random() < 0.15:
            env["OCFL_ROOT"] = self.root
        else:
            a += ["--root=" + self.root]
        a += ["--layout=" + told] if told else []
        a += rng.choice([[], [], ["-v"], ["-q"]]) if cmd != "path" else []
        self.x = cli.run("ocfl-root.py", a + args, env=env, real=rng.random() < 0.02)
        return self.x

    def some_id(self):
        """Output is one object per line: no line breaks."""
        return "".join(super().some_id().splitlines())

    def outcome(self):
        x = self.x
        return ("ok", None) if x.rc == 0 and not x.tb else ("exc", "Traceback" if x.tb else "StorageRootException", x.err[-200:])

    def told(self):
        return self.rng.choice(fy.NAMES) if self.rng.random() < self.case.get("told", 0.1) else ""

    def op_validate(self):
        rng = self.rng
        t = self.tree()
        objects, dig = rng.random() < 0.8, rng.random() < 0.7
        x = self.tool("validate", ["--validate-objects"] * objects + ["--check-digests"] * dig)
        m = re.findall(r"^Storage root (.*) is (VALID|INVALID)$", x.out, re.M | re.S)
        v = m[-1][1] if m else ""
        res = "valid" if x.rc == 0 and v == "VALID" and not x.tb else "invalid" if x.rc != 0 and v == "INVALID" and not x.tb else "exc"
        c = re.search(r"^Objects checked: (\d+) / (\d+) are (VALID|INVALID)$", x.out, re.M)
        num = int(c.group(2)) if c else 0
        good = 0 if not c else int(c.group(1)) if c.group(3) == "VALID" else num - int(c.group(1))
        self.ev("validate", self.outcome(), t, expect="", objects=objects, dig=dig, codes=[], num=num, good=good, badp=[], grp="v%s%s" % (objects, dig), ans=res, res=res,
                err=x.err[-200:])

    def op_list(self):
        t = self.tree()
        x = self.tool("list", [])
        items = [{"p": m[0].split("/"), "id": m[1]} for m in re.findall(r"^(.*) -- id=(.*)$", x.out, re.M)]
        f = re.search(r"^Found (\d+) OCFL Objects under root ", x.out, re.M)
        self.ev("list", self.outcome(), t, expect="", items=items, said=int(f.group(1)) if f else -1, grp="l", ans="%s %s" % (x.rc, sorted((y["p"], y["id"]) for y in items)))

    def op_locate(self):
        t = self.tree()
        told = self.told()
        i = self.some_id()
        if i == "" or "\0" in i or any(0xd800 <= ord(c) <= 0xdfff for c in i):
            i = "abcdef"
        x = self.tool("path", ["--id=" + i, "-q"], told)
        p = x.out[:-1] if x.out.endswith("\n") else x.out
        ok = x.rc == 0 and p.startswith(self.root + "/")
        p = p[len(self.root) + 1:] if ok else ""
        self.ev("locate", self.outcome(), t, expect="", told=told, idc=fy.cps(i), digs=fr.digs(i), p=[fy.cps(y) for y in p.split("/")] if ok else [],
                grp="p%s:%s" % (i.encode("ascii", "backslashreplace").decode(), told), ans="%s %s" % (x.rc, p))
        if ok:
            # validate and show what is there
            for cmd in ("validate-object", "show"):
                x = self.tool(cmd, ["--id=" + i], told)
                pr, _ = cli.verdicts(x.out)
                self.ev(cmd, self.outcome(), t, expect="", at=p.split("/"), rc=x.rc, said=[y["v"] for y in pr if y["typ"] == "object"])

    cspec = False

    def opts(self):
        return "fresh", self.told(), ""

    def do_create(self, layout, cspec, spec, lp):
        from ocfl import StorageRoot, StorageRootException
        x = self.tool("create", (["--spec-version=" + spec] if spec else []) + (["--layout-params=" + lp] if lp is not None else []), layout)
        if x.tb:
            raise RuntimeError(x.err[-300:])
        if x.rc:
            raise StorageRootException(x.err[-300:])
        return StorageRoot(self.root)

    def do_add(self, which, told, expect, src):
        from ocfl import StorageRootException
        x = self.tool("add", ["--src=" + src], told)
        if x.tb:
            raise RuntimeError(x.err[-300:])
        if x.rc:
            raise StorageRootException(x.err[-300:])
        m = re.search(r"^Added object (.*) at path (.*)$", x.out, re.M | re.S)
        return (m.group(1), m.group(2).rstrip("\n")) if m else ("", "?")


def root_gen(mode):
    def g(seed, i):
        rng = random.Random("%s/cli/root/%s/%d" % (seed, mode, i))
        return {"desc": "cli:root:%s" % mode, "rng": rng.random(), "mode": mode}
    return g


def root_run(case):
    return fr.run(case, CRTrace)
