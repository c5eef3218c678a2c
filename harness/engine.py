"""Executes the plan of a check: model checking runs, then families of
generated cases that are run on the code in /repo and judged by TLC."""
import errno
import random
import re
import subprocess
import time
import traceback
from collections import Counter

import sut
import tlc
from runner import pmap


def trouble(e):
    """The machine, not the code under test, is to blame."""
    while e is not None:
        if isinstance(e, (MemoryError, ImportError, subprocess.SubprocessError)) or \
                isinstance(e, OSError) and "storage operation failed" not in str(e) and e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.ENFILE, errno.EAGAIN, errno.EDQUOT, errno.EROFS):
            return True
        e = e.__cause__ or e.__context__
    return False


class Family:
    """Cases gen(seed, i), i < n, run on the code, judged by TLA+ module."""

    def __init__(self, name, gen, run, module, n, chunk=4000, clauses=None, cfg=None, behaviours=None):
        self.name, self.gen, self.run, self.module, self.n = name, gen, run, module, n
        self.chunk = chunk
        self.clauses = clauses      # predicate: which clauses count (None: all)
        self.cfg = cfg
        self.behaviours = behaviours
        self.seed = None
        self.index = None

    def one(self, i):
        c = self.gen(self.seed, i)
        if c is None or sut.hangs() > 8:      # no need for more of them
            return []
        hung = sut.HUNG
        try:
            rs = self.run(c)
        except Exception as e:     # what the code gave could not even be recorded
            if trouble(e):
                raise
            try:
                c = self.gen(self.seed, i)
                rs = self.run(c)
            except Exception as e2:
                if trouble(e2):
                    raise
                return [{"_i": i, "_desc": c["desc"], "_fail": "no-result", "_why": traceback.format_exc()}]
        if sut.HUNG > hung:
            return [{"_i": i, "_desc": c["desc"], "_fail": "no-end", "_why": "a call did not end"}]
        for r in rs:
            r["_i"] = i
            r["_desc"] = c["desc"]
        return rs


class Model:
    """Exhaustive TLC run of a specification (no code involved)."""

    def __init__(self, module, cfg=None, env=None, timeout=600, args=()):
        self.module, self.cfg, self.env, self.timeout, self.args = module, cfg, env, timeout, args


def only(plan, rp):
    res = []
    for p in plan:
        if isinstance(p, Family) and p.name == rp["family"]:
            p.index = rp["index"]
            p.seed = rp["seed"]
            res.append(p)
    return res


_fam = None


def _one(i):
    return _fam.one(i)


def run_family(fam, seed):
    global _fam
    fam.seed = fam.seed if fam.seed is not None else seed
    _fam = fam
    idx = [fam.index] if fam.index is not None else list(range(fam.n))
    fails, samples, dist, st, clauses = [], [], Counter(), {"states": 0, "distinct": 0}, 0
    total = 0
    kinds = Counter()
    for a in range(0, len(idx), fam.chunk):
        cs = [x for r in pmap(_one, idx[a:a + fam.chunk]) for x in r]
        for c in cs:
            if "_fail" in c:
                if c["_fail"] == "no-end":
                    sut.PATIENCE = 5
                fails.append({"family": fam.name, "seed": fam.seed, "index": c["_i"], "desc": c["_desc"], "how": c["_fail"], "clause": c["_fail"],
                              "detail": c["_why"][-3000:], "info": None, "outs": None})
        cs = [c for c in cs if "_fail" not in c]
        meta = {}
        for k, c in enumerate(cs):
            c["id"] = k
            meta[k] = (c.pop("_i"), c.pop("_desc"), c.pop("_info", None))
        if not cs:
            continue
        recs, s = tlc.judge(fam.module, cs, cfg=fam.cfg)
        st["states"] += s["states"]
        st["distinct"] += s["distinct"]
        total += len(cs)
        for r in recs:
            if r[0] == "R":
                dist[str(r[2])] += 1
                kinds[re.split(r"[ :+|@]", meta[r[1]][1])[0]] += 1
            elif r[0] == "FAIL":
                c = cs[r[1]]
                i, desc, info = meta[r[1]]
                if r[3] != "undefined" and fam.clauses is not None and not fam.clauses(r[3]):
                    continue
                fails.append({"family": fam.name, "seed": fam.seed, "index": i, "desc": desc, "how": str(r[2]), "clause": str(r[3]),
                              "detail": r[4:], "info": info, "outs": c.get("outs")})
        rng = random.Random(seed)
        for k in sorted(rng.sample(range(len(cs)), min(4, len(cs)))):
            samples.append({"family": fam.name, "index": meta[k][0], "case": meta[k][1], "outcome": c_short(cs[k])})
    return {"fails": fails, "samples": samples[:8], "dist": dist, "states": st["distinct"], "transitions": st["states"], "traces": total, "kinds": kinds}


def c_short(c):
    s = c.get("outs", c.get("steps", c.get("events", "")))
    s = repr(s)
    return s[:600]


def run_model(m):
    r = tlc.run(m.module, cfg=m.cfg, env=m.env, timeout=m.timeout, args=m.args)
    if r["rc"] != 0 or "Model checking completed. No error" not in r["out"]:
        raise tlc.TlcError("model %s/%s: rc %d\n%s" % (m.module, m.cfg, r["rc"], r["out"][-3000:]))
    return r


def execute(plan, prop, tier, seed):
    fails, samples, fams, models = [], [], {}, {}
    states = transitions = traces = 0
    for p in plan:
        t = time.time()
        if isinstance(p, Model):
            r = run_model(p)
            states += r["distinct"]
            transitions += r["states"]
            models["%s/%s" % (p.module, p.cfg or p.module)] = {"distinct_states": r["distinct"], "states_generated": r["states"], "wall_s": round(time.time() - t, 1)}
        else:
            r = run_family(p, seed)
            fails += r["fails"]
            samples += r["samples"]
            states += r["states"]
            transitions += r["transitions"]
            traces += r["traces"]
            fams[p.name] = {"cases": r["traces"], "judged_as": dict(r["dist"]), "kinds_of_case": len(r["kinds"]),
                            "judge_module": p.module, "wall_s": round(time.time() - t, 1)}
    # one report per case and clause
    seen, uniq = set(), []
    for f in fails:
        k = (f["family"], f["index"], f["clause"])
        if k not in seen:
            seen.add(k)
            uniq.append(f)
    return {"fails": uniq, "coverage": {"states": states, "transitions": transitions, "traces_validated_against_impl": traces,
                                        "samples": samples[:12], "families": fams, "models": models}}
