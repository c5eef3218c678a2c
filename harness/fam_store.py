"""The steps of the constructive model of storage roots (OcflStore.tla), each
one replayed on the code from the state it starts in, and judged by
RootJudge.tla.  As in fam_model, a case is one state of the model.
"""
import hashlib
import json
import os
import random
import shutil

import fam_model
import fam_root as fr
import runner

STRAYFILE = {"stray-ab": "ab/f.txt", "stray-x": "x/f.txt", "stray-ext": "extensions/f.txt", "stray-root": "README"}
STRAYDIR = {"empty": "e", "empty-ab": "ab/e"}


def source(i, kind):
    """Tree of bytes of the object with this identifier of this kind."""
    spec = "1.1" if kind == "g11" else "1.0"
    b = b"content one\n"
    d = hashlib.sha512(b).hexdigest()
    inv = json.dumps({"id": i, "type": "https://ocfl.io/%s/spec/#inventory" % spec, "digestAlgorithm": "sha512", "head": "v1", "manifest": {d: ["v1/content/a.txt"]},
                      "versions": {"v1": {"created": "2021-01-02T03:04:05Z", "message": "m", "user": {"name": "N", "address": "mailto:a@b"}, "state": {d: ["a.txt"]}}}}).encode()
    side = b"%s inventory.json\n" % hashlib.sha512(inv).hexdigest().encode()
    files = {"0=ocfl_object_" + spec: b"ocfl_object_%s\n" % spec.encode(), "inventory.json": inv, "inventory.json.sha512": side, "v1/inventory.json": inv,
             "v1/inventory.json.sha512": side, "v1/content/a.txt": b"content two\n" if kind == "bad" else b}
    if kind == "undecl":
        del files["0=ocfl_object_1.0"]
    return {"files": files, "dirs": ["v1", "v1/content"]}


class Trace(fr.RTrace):
    cspec = False

    def __init__(self, base, pick):
        super().__init__({"rng": pick, "mode": "model"}, base)

    def opts(self):
        return "same" if self.rng.random() < 0.3 else "fresh", "", ""

    def some_id(self):
        return "abcd"

    def play(self, ops):
        self.spec = None
        for a in ops:
            getattr(self, "m_" + a["op"])(a)
        return {"kind": "model", "objs": self.objs, "trees": self.trees, "lax": False, "evs": self.evs}

    def m_create(self, a):
        self.op_create(layout=a["layout"], lp=None, spec=a["spec"])

    def m_add(self, a):
        self.add(*self.opts(), source(a["id"], a["kind"]))

    def m_locate(self, a):
        self.locate(*self.opts(), a["id"])

    def m_list(self, a):
        self.op_list()

    def m_validate(self, a):
        self.validate(*self.opts(), a["objects"], a["dig"], False, True)

    def m_damage(self, a):
        w = a["what"]
        if w in STRAYFILE:
            self.put(STRAYFILE[w])
        elif w in STRAYDIR:
            self.mk(STRAYDIR[w])
        elif w == "nodecl":
            for f in os.listdir(self.root):
                if f.startswith("0="):
                    os.unlink(os.path.join(self.root, f))
        else:
            f = os.path.join(self.root, "ocfl_layout.json")
            os.unlink(f)
            if w == "unknown-layout":
                self.put("ocfl_layout.json", b'{"extension": "unknown", "description": "d"}')
        self.stores = {}

    def m_harm(self, a):
        p = os.path.join(self.root, *a["at"])
        w = a["what"]
        if w == "bad":
            with open(os.path.join(p, "v1", "content", "a.txt"), "wb") as fh:
                fh.write(b"content two\n")
        elif w == "undecl":
            for f in os.listdir(p):
                if f.startswith("0="):
                    os.unlink(os.path.join(p, f))
        else:
            shutil.rmtree(p)
            p = os.path.dirname(p)
            while p != self.root and not os.listdir(p):
                os.rmdir(p)
                p = os.path.dirname(p)
        self.stores = {}


def gen(cfg, n):
    return fam_model.gen(cfg, n, "OcflStore")


def size(cfg, n):
    return fam_model.size(cfg, n, "OcflStore")


def run(case, most=3):
    res = []
    for ops in fam_model.plays(case, most):
        with runner.Dir() as base:
            r = Trace(base, case["pick"]).play(ops)
        r["_info"] = [{k: v for k, v in e.items() if k not in ("digs", "idc")} for e in r["evs"]]
        res.append(r)
    return res


def run_all(case):
    return run(case, None)
