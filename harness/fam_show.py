"""The tree shown for an object: Object.tree and ocfl-object.py show."""
import logging
import os
import random
import re

import cli
import objgen
import scan
import sut
from fam_valid import Dir, gen_c07, gen_c09, gen_c10, gen_c11
from fam_warn import gen as gen_warn

NAMES = ["extra", "Extra", "a b", "zz", "0x", "v", "vv1", "v1x", "V1", "xv1", "logs", "extensions", "content", "data", "inventory.jsonx", "inventory", "Inventory.json", "inventory.json~",
         "x (3 files)", "[x]", "ünï", "-", "~", "0", ".hidden", "1=x", "v1.", "x<--- y", "README"]
SIDES = ["md5", "sha1", "sha256", "sha512", "blake2b-512", "x", "bak", "SHA512", "sha512.old", "a.b"]
CHANGES = ["none", "extra", "extra", "vextra", "vextra", "sides", "vsides", "vsides", "deep", "deep", "vdir", "vfile", "decl", "contents", "noinv", "badinv", "emptycontent", "missing"]


def change(rng, t, o, kind):
    """Change the tree; what was done."""
    fs, ds = t["files"], t["dirs"]
    vs = sorted(set(p.split("/")[0] for p in list(fs) + list(ds) if re.fullmatch(r"v[0-9]+", p.split("/")[0]) and ("/" in p or p in ds)))
    cd = o["root"].get("contentDirectory", "content")
    v = rng.choice(vs) if vs else "v1"
    at = "" if kind in ("extra", "sides") else v + "/"

    def put(p):
        if any(q == p or q.startswith(p + "/") or p.startswith(q + "/") for q in fs) or p in ds:
            return
        r = rng.random()
        if r < 0.5:
            fs[p] = b"x"
        elif r < 0.75:
            ds.append(p)
        else:
            for _ in range(rng.choice([1, 2])):
                fs[p + "/" + rng.choice(["f", "g", "a/b", "inventory.json", "h/i/j"])] = b"y"
    if kind in ("extra", "vextra"):
        for _ in range(rng.choice([1, 1, 2, 3])):
            put(at + rng.choice(NAMES))
    elif kind in ("sides", "vsides"):
        for s in rng.sample(SIDES, rng.choice([1, 1, 2, 3])):
            p = at + "inventory.json." + s
            if p not in fs and p not in ds:
                if rng.random() < 0.07:
                    ds.append(p)
                else:
                    fs[p] = b"0 inventory.json\n"
    elif kind == "deep":
        for _ in range(rng.choice([1, 2, 5, 12])):
            p = "%s/%s/%s" % (v, cd, rng.choice(["f%d", "a/f%d", "a/b/c/f%d", "inventory.json%d/f"]) % rng.randrange(99))
            if not any(q.startswith(p + "/") or p.startswith(q + "/") for q in fs) and p not in ds:
                fs[p] = b"z"
    elif kind == "vdir":
        w = "v%d" % rng.choice([len(vs) + 1, 9, 10, 0, 99])
        if w not in vs and w not in fs:
            ds.append(w)
            if rng.random() < 0.6:
                put(w + "/" + rng.choice(["content", cd, "inventory.json", "inventory.json.sha512", "x"]))
    elif kind == "vfile":
        w = rng.choice(["v9", "v0", "v01", "v10"])
        if w not in vs:
            fs[w] = b""
    elif kind == "decl":
        n = rng.choice(["0=ocfl_object_1.0", "0=ocfl_object_1.1", "0=ocfl_object_2.0", "0=ocfl_1.0", "0=x", "1=ocfl_object_1.1"])
        if rng.random() < 0.4:
            for p in [p for p in fs if p.startswith("0=")]:
                del fs[p]
        fs[n] = n[2:].encode() + b"\n"
    elif kind == "contents":
        for w in vs:
            put(w + "/" + rng.choice(["content", "data", "Content", cd + "x"]))
    elif kind == "noinv":
        for p in [p for p in fs if p.startswith(rng.choice(["inventory.json", v + "/inventory.json"]))]:
            if rng.random() < 0.7:
                del fs[p]
    elif kind == "badinv" and "inventory.json" in fs:
        fs["inventory.json"] = rng.choice([b"{}", b"", b"[]", fs["inventory.json"][:-5], fs["inventory.json"] + b" ", fs["inventory.json"].replace(b'"id"', b'"ID"')])
    elif kind == "emptycontent":
        if not any(p.startswith("%s/%s/" % (v, cd)) for p in fs):
            ds.append("%s/%s%s" % (v, cd, rng.choice(["", "/a", "/a/b"])))
    elif kind == "missing":
        ps = sorted(p for p in fs if "/" in p)
        for p in rng.sample(ps, min(len(ps), rng.choice([1, 2]))):
            del fs[p]
    return kind


def plain_names(t):
    """Names can be told apart in lines of text, and sort as they are."""
    return all(re.fullmatch(r"[^\n\r\t\x00-\x1f\x7f-\xa0\u2028\u2029]*[^\s]", g) and not g.startswith(" ") and not re.match(r"v\d+$", re.sub("[0-9]", "", g) + "x")
               and not re.search(r"[^\x00-\x7f]", g if g.startswith("v") else "") for p in list(t["files"]) + t["dirs"] for g in p.split("/"))


def readable(t):
    try:
        scan.ast(t)
        return True
    except RecursionError:
        return False


def gen(seed, i):
    rng = random.Random("show-%s-%d" % (seed, i))
    if i % 5 == 4:
        for _ in range(20):
            g = rng.choice([gen_c07, gen_c09, gen_c10, gen_c11, gen_warn])
            c = g("s%s" % rng.random(), rng.randrange(4000))
            if c and "tree" in c and plain_names(c["tree"]) and readable(c["tree"]):
                return {"desc": "%s %s" % (g.__name__, c["desc"]), "tree": scan.norm_tree(c["tree"]), "lax": bool(c.get("lax")), "cli": i % 15 == 4}
    d = objgen.gen(rng)
    o = objgen.obj(d)
    t = objgen.emit(o)
    desc = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        desc.append(change(rng, t, o, rng.choice(CHANGES)))
    t = scan.norm_tree(t)
    if set(t["dirs"]) & set(t["files"]):
        return None
    return {"desc": "+".join(desc), "tree": t, "lax": rng.random() < 0.15, "cli": i % 3 == 0}


LEVELS = [("├── ", 0, False), ("└── ", 0, True)]


def parse(text, verdict, how):
    """Lines of a display as a record for the judge."""
    got = text.rstrip("\n").split("\n")
    lines = []
    for s in got[1:]:
        up, lvl = True, 0
        if s.startswith("│   ") or s.startswith("    "):
            up, lvl, s = s.startswith("│"), 1, s[4:]
        k = s[:4]
        if k not in ("├── ", "└── "):
            lines.append({"lvl": 9, "last": False, "open": False, "text": s})
            continue
        lines.append({"lvl": lvl, "last": k == "└── ", "open": up, "text": s[4:].rstrip()})
    return {"how": how, "exc": False, "first": got[0], "lines": lines, "verdict": verdict, "wrote": False}


def failed(how, why):
    return {"how": how, "exc": True, "first": "", "lines": [], "verdict": "", "wrote": False, "why": why}


class Heard(logging.Handler):
    def __init__(self):
        super().__init__()
        self.said = []

    def emit(self, record):
        self.said.append((record.levelno, record.getMessage()))


def library(how, root, lax, obj):
    h = Heard()
    log = logging.getLogger()
    old, dis, others = log.level, log.manager.disable, log.handlers[:]
    logging.disable(logging.NOTSET)
    log.handlers[:] = [h]
    log.setLevel(logging.INFO)
    try:
        r = sut.call(obj.tree, root)
    finally:
        log.handlers[:] = others
        log.setLevel(old)
        logging.disable(dis)
    if r[0] != "ok":
        return failed(how, str(r[1:3]))
    return parse(r[1], status("\n".join(m for _, m in h.said), root), how)


def status(text, root):
    text = text.replace(root, "")
    a, b = "is INVALID" in text, "VALID STRUCTURE" in text
    return "INVALID" if a and not b else "VALID" if b and not a else "both" if a else "none"


def run(c):
    import ocfl
    outs = []
    with Dir() as dd:
        root = os.path.join(dd, "obj")
        scan.write_tree(root, c["tree"])
        before = sut.snapshot(root)
        outs.append(library("tree", root, c["lax"], ocfl.Object(lax_digests=c["lax"])))
        if c["cli"]:
            n = len(c["desc"]) % 3
            r = cli.run("ocfl-object.py", ["show", "--objdir", root, "-v"] + (["--lax-digests"] if c["lax"] else []) + [[], ["--spec-version", "1.0"], ["--digest", "sha256"]][n])
            text = r.out.split("\n", 1)
            if r.rc or r.tb or not text[0].startswith("Object tree") or len(text) < 2:
                outs.append(failed("cli", r.err[-300:]))
            else:
                outs.append(parse(text[1], status(r.err, root), "cli"))
        # again with the same object, after another was shown
        ob = ocfl.Object(lax_digests=c["lax"])
        other = os.path.join(dd, "other")
        rng = random.Random(c["desc"])
        scan.write_tree(other, objgen.emit(objgen.obj(objgen.gen(rng))))
        library("other", other, c["lax"], ob)
        outs.append(library("again", root, c["lax"], ob))
        if sut.snapshot(root) != before:
            for o in outs:
                o["wrote"] = True
    return [{"tree": scan.ast(c["tree"]), "lax": c["lax"], "dflt": "1.1", "dir": root, "outs": outs}]
