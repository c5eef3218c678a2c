"""Confirm planted changes in scratch copies of /repo: tests pass, the demo
tells the trees apart, and (with --checks) the property's check catches it.

  seedcheck.py [--checks] [--tier quick] [ID ...]
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
ENV = dict(os.environ, PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", LC_ALL="C.UTF-8", TZ="UTC",
           PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONNOUSERSITE="1")


def sh(cmd, cwd, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def stable_missing(repo, tmp):
    env = dict(ENV, PYTHONPATH=repo)
    sh(["python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-o", "junit_family=xunit2",
        "--junitxml=" + tmp + "/junit.xml", "tests"], repo, env)
    rc, out = sh(["/usr/bin/python3", "/opt/vp/results.py", tmp + "/o.json", "junit:" + tmp + "/junit.xml"], repo, env)
    o = json.load(open(tmp + "/o.json"))
    ps = set(o["passed"]) if "passed" in o else set(k for k, v in o.get("results", o).items() if v in ("pass", "passed", True))
    return [x for x in BASE if x not in ps]


def main():
    args = sys.argv[1:]
    checks = "--checks" in args
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(HERE + "/seeded"))
    notests = "--notests" in args
    for i in ids:
        sd = os.path.join(HERE, "seeded", i)
        prop = json.load(open(sd + "/meta.json"))["property"]
        tmp = tempfile.mkdtemp(prefix="seed_")
        try:
            repo = tmp + "/repo"
            shutil.copytree("/repo", repo, symlinks=True)
            demo = tmp + "/demo"
            shutil.copytree(sd, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
            rc0, out0 = sh(["bash", demo + "/demo.sh"], repo)
            rc, out = sh(["git", "apply", sd + "/patch.diff"], repo)
            if rc:
                print(i, "DOES NOT APPLY", out)
                continue
            rc1, out1 = sh(["bash", demo + "/demo.sh"], repo)
            miss = "-" if notests else stable_missing(repo, tmp)
            msg = "%-28s %s demo clean=%d patched=%d tests-missing=%s" % (i, prop, rc0, rc1, miss if miss else 0)
            if rc0 != 0 or rc1 == 0:
                msg += "  DEMO BAD\n" + out0[-1500:] + out1[-600:]
            if checks:
                rc, out = sh(["/opt/venv/bin/python", "-W", "ignore", HERE + "/check.py", "--property", prop, "--tier", "quick"], HERE,
                             dict(ENV, VERIF_REPO=repo, VERIF_SEED="1"))
                ok = rc == 1 and "VIOLATION property=" + prop in out
                msg += "  %s (rc %d)" % ("CAUGHT" if ok else "MISSED", rc)
                if rc == 2:
                    msg += "\n" + out[-1500:]
            print(msg, flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
