"""The steps of the constructive model (OcflObject.tla), each one replayed on
the code from the state it starts in, and judged by LifeJudge.tla.

A case is one state of the model: the operations leading to it, then every
operation that leaves it as it is, and (one at a time, each in a fresh copy)
every operation that changes it.
"""
import json
import os
import random

import fam_life as fl
import runner
import scan
import tlc

BYTES = {"B1": b"content one\n", "B2": b"content two\n"}
_dumps = {}


def dump(cfg, module="ObjectVersions"):
    """States of the model: (path, staying operations, changing operations), in a fixed order."""
    if cfg not in _dumps:
        r = tlc.run(module, cfg=cfg, env={"DUMP": "1"}, workers=1, timeout=880)
        if "No error has been found" not in r["out"]:
            raise tlc.TlcError(r["out"][-2000:])
        by = {}
        for line in r["out"].split("\n"):
            if line.startswith('"{'):
                q = json.loads(json.loads(line))
                k = json.dumps(q["tr"], sort_keys=True)
                by.setdefault(k, (q["tr"], [], []))[1 if q["stay"] else 2].append(q["a"])
        res = []
        for k in sorted(by):
            tr, stay, go = by[k]
            key = lambda a: json.dumps(a, sort_keys=True)  # noqa: E731
            res.append((tr, sorted(stay, key=key), sorted(go, key=key)))
        _dumps[cfg] = res
    return _dumps[cfg]


class MTrace(fl.LTrace):
    """A trace whose operations are given."""

    def __init__(self, base):
        super().__init__({"rng": 0, "profile": "mix", "lax": False, "bad": 0}, base)

    def files(self, src):
        return {"/".join(f["p"]): BYTES[f["c"]] for f in src}

    def md(self, m):
        r = {k: None if m[k] == "none" else m[k][1:] for k in ("created", "message", "name", "address")}
        return r

    def settings_of(self, a):
        return {k: a[k] for k in ("norm", "fwd", "dedupe")}

    def play(self, ops):
        for a in ops:
            getattr(self, "m_" + a["op"])(dict(a))
        return {"trees": self.trees, "start": self.start, "steps": self.steps}

    def m_create(self, a):
        maps = [self.files(s) for s in a["srcs"]]
        metas = [self.md(m) for m in a["metas"]]
        build = len(maps) > 1
        if build:
            self.nsrc += 1
            sd = os.path.join(self.work, "src%d" % self.nsrc)
            os.makedirs(sd)
            for x, m in enumerate(maps):
                scan.write_tree(os.path.join(sd, "v%d" % (x + 1)), {"files": m, "dirs": []})
        else:
            sd = self.source(maps[0])
        a["srcs"] = [self.srcev(m, "none") for m in maps]
        a["metas"] = [fl.meta_ev(m) for m in metas]
        a["dryvers"] = []
        a.pop("op")
        ev, r = self.record("create", lambda: self.do_create(a, build, sd, metas, None), how="build" if build else "create", **a)
        self.written(ev, a["alg"])

    def m_update(self, a):
        m, s, meta = self.files(a["src"]), self.settings_of(a), self.md(a["meta"])
        a.pop("op")
        a.update(src=self.srcev(m, "none"), srcs=self.srcev(m, "none"), meta=fl.meta_ev(meta), fixset=False, fixalgs=[], carry=not a["hassrc"], nosrc=False, h="")
        sd = self.source(m) if a["hassrc"] else None
        ev, r = self.record("update", lambda: self.do_update(a, s, sd, meta), **a)
        self.written(ev, a["alg"])

    def m_start(self, a):
        s, meta = self.settings_of(a), self.md(a["meta"])
        m = dict(BYTES)
        sd = self.source(m)
        a.pop("op")
        a.update(meta=fl.meta_ev(meta), fixset=False, fixalgs=[], nosrc=False, obs=[], diff=[])
        self.nh += 1
        h = a["h"] = "h%d" % self.nh
        o = None

        def fn():
            nonlocal o
            o = self.handle(s)
            return o.start_new_version(objdir=self.objdir, srcdir=sd, digest_algorithm=a["alg"] or None, metadata=self.vm(meta), carry_content_forward=a["carry"])
        ev, r = self.record("start", fn, **a)
        if ev["res"] == "ok":
            self.handles[h] = dict(o=o, nv=r[1], src=m, meta=meta, norm="none", alg=a["alg"])
            self.observe(ev, h)

    def h(self):
        return sorted(self.handles, key=lambda x: int(x[1:]))[-1]

    def m_add(self, a):
        h = self.h()
        nv = self.handles[h]["nv"]
        self.edit("add", lambda: nv.add(a["c"], "/".join(a["lp"]), None), h, c=self.intern.add(BYTES[a["c"]]), n=a["n"], lp=a["lp"], cp=[], missing=False,
                  cpused=False, norm="none")

    def m_delete(self, a):
        h = self.h()
        nv = self.handles[h]["nv"]
        self.edit("delete", lambda: nv.delete("/".join(a["lp"])), h, lp=a["lp"])

    def m_rename(self, a):
        h = self.h()
        nv = self.handles[h]["nv"]
        self.edit("rename", lambda: nv.rename("/".join(a["lp"]), "/".join(a["to"])), h, lp=a["lp"], to=a["to"])

    def m_commit(self, a):
        h = self.h()
        hd = self.handles.pop(h)
        ev, r = self.record("commit", lambda: hd["o"].write_new_version(hd["nv"]), h=h)
        self.written(ev, hd["alg"])

    def m_extract(self, a):
        self.nsrc += 1
        d = os.path.join(self.work, "t%d" % self.nsrc)
        ev, r = self.record("extract", lambda: self.do_extract(a["ver"], d), allowed=d, ver=a["ver"], dst="absent", before=[])
        ev["out"], ev["outdirs"] = self.out(d)
        ev["meta"] = self.metaof(r[1]) if ev["res"] == "ok" else {}

    def m_extractfile(self, a):
        self.nsrc += 1
        d = os.path.join(self.work, "t%d" % self.nsrc)
        ev, r = self.record("extractfile", lambda: self.do_extractfile(a["ver"], d, "/".join(a["lp"])), allowed=d, ver=a["ver"], dst="absent", before=[], beforedirs=[],
                            lp=a["lp"])
        ev["out"], ev["outdirs"] = self.out(d)
        ev["meta"] = self.metaof(r[1]) if ev["res"] == "ok" else {}

    def m_read(self, a):
        self.op_read()


def gen(cfg, n, module="ObjectVersions"):
    """Case i of n: some of the model's states (all of them together)."""
    def g(seed, i):
        d = dump(cfg, module)
        rng = random.Random("%s/model/%s" % (seed, cfg))
        order = list(range(len(d)))
        rng.shuffle(order)
        if i >= len(order):
            return None
        return {"state": d[order[i]], "desc": "model:" + cfg, "pick": "%s/%d" % (seed, i)}
    return g


def size(cfg, n, module="ObjectVersions"):
    return min(n, len(dump(cfg, module)))


def plays(case, most):
    """The state's staying operations in one sequence, and up to `most` of the changing ones."""
    tr, stay, go = case["state"]
    rng = random.Random(case["pick"])
    res = [tr + stay] if stay or not go else []
    for a in (go if most is None else rng.sample(go, min(most, len(go)))):
        res.append(tr + [a])
    return res


def run(case, most=3):
    res = []
    for ops in plays(case, most):
        with runner.Dir() as base:
            r = MTrace(base).play(ops)
        r["_info"] = fl.brief(r["steps"])
        res.append(r)
    return res


def run_all(case):
    return run(case, None)
