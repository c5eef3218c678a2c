"""Running TLC."""
import json
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECDIR = os.path.join(VERIF, "spec")
JAVA = ["java", "-XX:+UseParallelGC", "-Xss64m", "-cp",
        "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC"]


class TlcError(Exception):
    pass


def run(module, cfg=None, env=None, args=(), workers=8, timeout=800, heap="6g"):
    """Run TLC on spec/<module>.tla; returns dict(out, states, distinct, rc)."""
    meta = tempfile.mkdtemp(prefix="tlcmeta")
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = [JAVA[0], "-Xmx" + heap] + JAVA[1:] + ["-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
        p = subprocess.run(cmd, cwd=SPECDIR, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode("utf-8", "replace")
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    st = int(m.group(1).replace(",", "")) if m else 0
    di = int(m.group(2).replace(",", "")) if m else 0
    return {"out": out, "rc": p.returncode, "states": st, "distinct": di}


STR = re.compile(r'"((?:[^"\\]|\\.)*)"')


def lines(out):
    """Printed tuples: PrintT(ToString(<<...>>)) -> list of lists of top-level fields (text)."""
    res = []
    for line in out.split("\n"):
        if line.startswith('"<<') and line.endswith('>>"'):
            res.append(line[1:-1].replace('\\"', '"').replace("\\\\", "\\"))
    return res


def parse(text):
    """TLA+ value printed by TLC -> python (tuples->list, sets->{'set':..} as list, records->dict)."""
    pos = 0

    def ws():
        nonlocal pos
        while pos < len(text) and text[pos] in " \n\t":
            pos += 1

    def val():
        nonlocal pos
        ws()
        if text.startswith("<<", pos):
            pos += 2
            return seq(">>")
        c = text[pos]
        if c == "{":
            pos += 1
            return seq("}")
        if c == "[":
            pos += 1
            d = {}
            ws()
            if text[pos] == "]":
                pos += 1
                return d
            while True:
                ws()
                m = re.compile(r"([A-Za-z_]\w*)\s*\|->").match(text, pos)
                pos = m.end()
                d[m.group(1)] = val()
                ws()
                if text[pos] == ",":
                    pos += 1
                    continue
                pos += 1
                return d
        if c == '"':
            m = STR.match(text, pos)
            pos = m.end()
            return m.group(1)
        m = re.compile(r"[^,>}\]\s]+").match(text, pos)
        pos = m.end()
        s = m.group(0)
        return int(s) if re.fullmatch(r"-?\d+", s) else s == "TRUE" if s in ("TRUE", "FALSE") else s

    def seq(end):
        nonlocal pos
        r = []
        ws()
        if text.startswith(end, pos):
            pos += len(end)
            return r
        while True:
            r.append(val())
            ws()
            if text[pos] == ",":
                pos += 1
                continue
            if not text.startswith(end, pos):
                raise TlcError("cannot parse %r" % text)
            pos += len(end)
            return r
    return val()


EVAL = re.compile(r"The error occurred when TLC was evaluating the nested|Attempted to|In evaluation, the identifier|TLC threw an unexpected exception")
NOT_EVAL = re.compile(r"OutOfMemory|StackOverflow|Java heap|GC overhead|No space left|FileNotFound|Parsing or semantic analysis failed|Unknown operator")
POS = re.compile(r"^/\\ pos = (\d+)", re.M)


def judge(module, cases, timeout=800, cfg=None, per=None, undefined=3):
    """Run a batch judge; returns (records, stats). Cases are split in files of `per`.

    A recorded case that the specification cannot give a meaning to (it is evaluated
    outside the domain of an operator) is not a behaviour of it: such a case is
    reported with the clause "undefined"."""
    recs = []
    stats = {"states": 0, "distinct": 0}
    per = per or 4000
    for a in range(0, max(len(cases), 1), per):
        part = cases[a:a + per]
        while part:
            fd, name = tempfile.mkstemp(prefix="cases", suffix=".json")
            try:
                with os.fdopen(fd, "w") as fh:
                    json.dump(part, fh)
                r = run(module, cfg=cfg, env={"CASES": name}, timeout=timeout)
            finally:
                os.unlink(name)
            stats["states"] += r["states"]
            stats["distinct"] += r["distinct"]
            got = [parse(x) for x in lines(r["out"])]
            done = set(x[1] for x in got if x[0] == "R")
            if r["rc"] != 0 or "Model checking completed. No error" not in r["out"]:
                keep = "/tmp/tlc_error_%s.out" % module
                with open(keep, "w") as fh:
                    fh.write(r["out"])
                pos = [int(x) for x in POS.findall(r["out"])]
                if not pos or not EVAL.search(r["out"]) or NOT_EVAL.search(r["out"]) or not 0 < pos[-1] <= len(part):
                    raise TlcError("TLC failed on %s (rc %d):\n%s" % (module, r["rc"], r["out"][-3000:]))
                c = part[pos[-1] - 1]
                m = re.search(r"The exception was [^\n]*\n: ([^/]*?)\nError|Error: (Evaluating[^/]*?)\nError", r["out"])
                recs.append(["FAIL", c["id"], "undefined", "undefined", " ".join((m.group(1) or m.group(2)).split())[:400] if m else ""])
                undefined -= 1
                if undefined <= 0:       # enough is known: the others are not judged
                    return recs + [x for x in got if x[1] != c["id"]], stats
                part = [x for x in part if x is not c]
                continue
            missing = [c["id"] for c in part if c["id"] not in done]
            if missing:
                raise TlcError("cases without result: %s\n%s" % (missing[:10], r["out"][-2000:]))
            recs += got
            break
    return recs, stats
