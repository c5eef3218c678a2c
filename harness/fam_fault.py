"""Writes that fail part way (for FaultJudge): traces as in fam_life, in which
every writing operation is also stopped before each of its storage operations
and run with failing storage operations."""
import os
import random
import shutil

import faults
import fam_life
import fam_root
import runner
import scan
import sut
from fam_life import LTrace

CREATED = ["2021-01-02T03:04:05Z", "1999-02-28T00:00:00.25Z"]


class FTrace(LTrace):
    def __init__(self, case, base):
        self.fcases = []
        super().__init__(case, base)

    def meta(self, bad=0.0):
        m = super().meta(0.0)
        m["created"] = self.rng.choice(CREATED)
        return m

    def restore(self, raw):
        """Make the object what it was."""
        if os.path.isdir(self.objdir):
            shutil.rmtree(self.objdir)
        elif os.path.lexists(self.objdir):
            os.unlink(self.objdir)
        if raw is not None:
            if "<file>" in raw["files"]:
                with open(self.objdir, "wb") as fh:
                    fh.write(raw["files"]["<file>"])
            else:
                scan.write_tree(self.objdir, raw)

    def raw_tree(self):
        if not os.path.isdir(self.objdir):
            return None
        return scan.read_tree(self.objdir)

    def libv(self, raw, lax):
        """The validator's verdict on a tree."""
        if raw is None:
            return "invalid"
        d = os.path.join(self.base, "check")
        scan.write_tree(d, raw)
        r = sut.validate_object(d, lax_digests=lax)
        shutil.rmtree(d)
        return r["v"]

    def record(self, op, fn, allowed=None, **ev):
        if op not in ("create", "update", "commit") or ev.get("dry"):
            return super().record(op, fn, allowed, **ev)
        before, rawb = self.pt, self.raw
        states = []

        def seen(k, kind):
            states.append((kind, self.raw_tree()))
        with faults.Watch([self.work], [self.objdir], seen=seen) as w:
            out = super().record(op, fn, allowed, **ev)
        full, rawf = self.pt, self.raw
        done_ok = out[0]["res"] != "refused"
        lax = self.lax or ev.get("alg", "") not in fam_life.ALGS + [""] or True
        points, done = [], {}

        def point(raw, kind, res):
            self.restore(raw)
            k = self.tree()
            if k not in done:
                done[k] = "valid" if raw is not None and self.libv(raw, lax) == "valid" else "invalid"
            points.append({"u": k, "kind": kind, "res": res, "lib": done[k]})
        seen_states = set()
        for kind, raw in states:
            key = None if raw is None else (tuple(sorted(raw["files"].items())), tuple(raw["dirs"]))
            if key not in seen_states:
                seen_states.add(key)
                point(raw, "stop:" + kind, "stopped")
        if not done_ok:
            # nothing should have been done, and what was done stays
            self.restore(rawf)
            point(rawf, "end", "refused")
        # failing operations
        n = w.n if done_ok else 0
        ks = list(range(n))
        self.rng.shuffle(ks)
        limit = self.case.get("nerr", 12)
        for k in ks[:limit]:
            self.restore(rawb)
            cut = self.rng.random() < 0.6
            with faults.Watch([self.work], [self.objdir], fail=k, cut=cut) as w2:
                r = sut.call(fn)
            if not w2.hit:
                continue
            raw = self.raw_tree()
            point(raw, "error:" + w2.kinds[k], "refused" if r[0] == "exc" else "ok")
        self.restore(rawf)
        assert self.tree() == full
        self.fcases.append({"t": before, "full": full if done_ok else before, "lax": lax, "op": op, "points": points, "npt": len(self.trees)})
        return out

    def go(self):
        super().go()
        res = []
        for c in self.fcases:
            use = sorted(set([c["t"], c["full"]] + [p["u"] for p in c["points"]]) - {0})
            ix = {k: i + 1 for i, k in enumerate(use)}
            ix[0] = 0
            res.append({"trees": [self.trees[k - 1] for k in use], "t": ix[c["t"]], "full": ix[c["full"]], "lax": c["lax"], "op": c["op"],
                        "points": [dict(p, u=ix[p["u"]]) for p in c["points"]],
                        "_info": {"op": c["op"], "steps": fam_life.brief(self.steps)[-3:]}})
        return res


def gen(nerr=12, length=3, profile="write"):
    g = fam_life.gen(profile, length=length, bad=0.0, initial=0.7)

    def h(seed, i):
        c = g("%s/fault" % seed, i)
        c["nerr"] = nerr
        c["lax"] = random.Random(c["rng"]).random() < 0.1
        c["desc"] = "fault"
        return c
    return h


def run(case):
    with runner.Dir() as base:
        return FTrace(case, base).go()


# --- additions to storage roots ---
class FRoot(fam_root.RTrace):
    def __init__(self, case, base):
        self.fcases = []
        super().__init__(case, base)

    def restore(self, raw):
        shutil.rmtree(self.root)
        os.makedirs(self.root)
        scan.write_tree(self.root, raw)

    def verdict(self):
        from ocfl import StorageRoot
        r = sut.call(StorageRoot(self.root, lax_digests=self.lax).validate, log_warnings=False, log_errors=False)
        return "valid" if r[0] == "ok" and r[1] is True else "invalid"

    def some_id(self):
        return self.rng.choice(["a", "ab", "abab", "abcd", "abcde", "http://example.org/x", "info:o/1", "x y", "ünï", "a:b"])

    def do_add(self, which, told, expect, src):
        before = scan.read_tree(self.root)
        states = []
        t = self.tree()

        def seen(k, kind):
            states.append((kind, scan.read_tree(self.root)))
        with faults.Watch([self.root, src], [self.root], seen=seen) as w:
            r = sut.call(super().do_add, which, told, expect, src)
        after = scan.read_tree(self.root)
        full = self.tree()
        points, done = [], {}

        def point(raw, kind, res):
            self.restore(raw)
            k = self.tree()
            if k not in done:
                done[k] = self.verdict()
            points.append({"u": k, "kind": kind, "res": res, "lib": done[k]})
        keys = set()
        for kind, raw in states:
            key = (tuple(sorted(raw["files"].items())), tuple(raw["dirs"]))
            if key not in keys:
                keys.add(key)
                point(raw, "stop:" + kind, "stopped")
        if r[0] == "ok":
            ks = list(range(w.n))
            self.rng.shuffle(ks)
            for k in ks[:self.case.get("nerr", 10)]:
                self.restore(before)
                with faults.Watch([self.root, src], [self.root], fail=k, cut=self.rng.random() < 0.6) as w2:
                    q = sut.call(super().do_add, "fresh", told, expect, src)
                if w2.hit:
                    point(scan.read_tree(self.root), "error:" + w2.kinds[k], "refused" if q[0] == "exc" else "ok")
        self.restore(after)
        if r[0] == "ok" and points:
            self.fcases.append({"t": t, "full": full, "op": "add", "points": points})
        if r[0] == "exc":
            raise r[3] or OSError(r[2])
        return r[1]

    def go(self):
        super().go()
        res = []
        for c in self.fcases:
            use = sorted(set([c["t"], c["full"]] + [p["u"] for p in c["points"]]))
            ix = {k: i + 1 for i, k in enumerate(use)}
            res.append({"trees": [self.trees[k - 1] for k in use], "t": ix[c["t"]], "full": ix[c["full"]], "op": c["op"],
                        "points": [dict(p, u=ix[p["u"]]) for p in c["points"]], "_info": {"op": "add", "last": [e.get("sid") for e in self.evs if e["op"] == "add"][-3:]}})
        return res


def gen_root(nerr=10):
    g = fam_root.gen("add", told=0.0, badsrc=0.0)

    def h(seed, i):
        c = g("%s/fault" % seed, i)
        c["nerr"] = nerr
        return c
    return h


def run_root(case):
    with runner.Dir() as base:
        return FRoot(case, base).go()
