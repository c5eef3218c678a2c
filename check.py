#!/opt/venv/bin/python -W ignore
"""Run the check of one property.

  check.py --property C07 [--tier quick|thorough] [--seed N]
  check.py --replay out/C07-1.json

Exit 0: held on everything explored.  Exit 1 with a VIOLATION line otherwise.
Exit 2: the machinery itself failed (no verdict).
"""
import argparse
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True


def known():
    """[(property, regex, text)] of unrepaired findings."""
    res = []
    with open(os.path.join(HERE, "known_findings.txt"), encoding="utf-8") as fh:
        for line in fh:
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line)
            if m:
                res.append((m.group(1), re.compile(m.group(2)), m.group(3).strip()))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--scale", type=float, default=1.0, help="scale factor for numbers of cases")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        with open(a.replay, encoding="utf-8") as fh:
            rp = json.load(fh)
        a.property = rp["property"]
    import registry
    import engine
    try:
        t0 = time.time()
        plan = registry.plan(a.property, a.tier, a.seed, a.scale)
        if a.replay:
            plan = engine.only(plan, rp)
        res = engine.execute(plan, a.property, a.tier, a.seed)
        wall = time.time() - t0
    except Exception:
        traceback.print_exc()
        print("ERROR: the check of %s could not be completed" % a.property)
        return 2
    kn = known()
    os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    new, old = [], {}
    for f in res["fails"]:
        key = "%s|%s|%s|%s" % (f["family"], f["desc"], f["how"], f["clause"])
        hit = [t for p, rx, t in kn if p == a.property and rx.search(key)]
        if hit:
            old[hit[0]] = old.get(hit[0], 0) + 1
        else:
            new.append(f)
    for t in sorted(old):
        print("KNOWN-FINDING: property=%s %s (%d cases)" % (a.property, t, old[t]))
    for n, f in enumerate(new[:20]):
        path = os.path.join(HERE, "out", "%s-%d.json" % (a.property, n + 1))
        with open(path, "w", encoding="utf-8") as fh:
            json.dump(dict(f, property=a.property), fh, indent=1, default=repr)
        print("%s: %s [%s] %s" % (f["family"], f["clause"], f["how"], f["desc"][:300]))
        print("VIOLATION property=%s replay=%s" % (a.property, path))
    if len(new) > 20:
        print("... %d violations in all" % len(new))
    if not a.replay:
        cov = res["coverage"]
        ev = {"property": a.property, "tier": a.tier, "seed": int(a.seed), "level": registry.level(a.property), "coverage": cov,
              "wall_s": round(wall, 2), "violations": len(new), "known_findings": sum(old.values())}
        with open(os.path.join(HERE, "evidence", a.property + ".json"), "w", encoding="utf-8") as fh:
            json.dump(ev, fh, indent=1, sort_keys=True)
        print("%s %s: %d states, %d implementation traces, %.0f s" % (
            a.property, "VIOLATED" if new else "holds", cov["states"], cov["traces_validated_against_impl"], wall))
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
