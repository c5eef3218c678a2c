"""Warnings: objects which break no rule but leave recommendations unfollowed."""
import copy
import os
import random
import re

import objgen
import scan
import sut
from fam_valid import Dir, gen_c10

WORD = re.compile(r"[^\s'\"(),]+")
IDS = ["info:x", "http://example.org/a", "urn:x-y:1", "HTTPS://e.org/", "a+b.c-1:x", "mailto:a@b.c", "plain", "no scheme at all", "1abc:x", "/path:x",
       "ünï:x", ":x", "a_b:c", "http//x", "-x:y", "a:b", "x", "http", "ark.x:/1"]
ADDR = ["mailto:a@example.org", "https://orcid.org/0000-0001", "http://e.org/me", "urn:x:1", "info:x/y", "orcid:0000-1", "me@example.org", "0000-0001-2345", "", "a b",
        "//orcid.org/1", "x:y", "mailto", "ünï"]
EXT = ["0001-digest-algorithms", "0002-flat-direct-storage-layout", "0003-hash-and-id-n-tuple-storage-layout", "0004-hashed-n-tuple-storage-layout",
       "0005-mutable-head", "0005-mutable-head-x", "mutable-head", "local", "x0001-digest-algorithms", "0001-digest-algorithm", "0004", "initial", "0009-digest-algorithms",
       "extensions", "0002-FLAT-direct-storage-layout", "v1", "inventory.json", "Ünï"]


def plain(d):
    """Description without anything to warn about."""
    d["id"] = "info:x/y"
    d["skip"], d["headinv"] = [], True
    d["algs"] = ["sha512"] * d["nv"]
    for m in d["meta"]:
        m["message"] = "m"
        m["user"] = {"name": "N", "address": "mailto:a@example.org"}
    return d


def invs(o):
    return [o["root"]] + [o["vinv"][v] for v in sorted(o["vinv"])]


def blocks(rng, o):
    """The same version block in all inventories that have it, or in one of them."""
    v = rng.choice(sorted(o["root"]["versions"]))
    bs = [i["versions"][v] for i in invs(o) if v in i["versions"]]
    return bs


KINDS = ["none", "id", "alg", "pad", "message", "user", "address", "address_value", "meta_one", "meta_one", "meta_type", "order", "skip", "head", "w2", "w2", "w3", "w3", "ext", "ext",
         "logs", "random", "deep"]


def change(rng, kind, d, o, desc):
    if kind == "message":
        bs = blocks(rng, o)
        for b in bs if rng.random() < 0.6 else [rng.choice(bs)]:
            b.pop("message", None) if rng.random() < 0.8 else b.update(message="")
    elif kind == "user":
        bs = blocks(rng, o)
        for b in bs if rng.random() < 0.6 else [rng.choice(bs)]:
            b.pop("user", None)
    elif kind == "address":
        for b in blocks(rng, o):
            b.get("user", {}).pop("address", None)
    elif kind == "address_value":
        a = rng.choice(ADDR)
        desc.append(a)
        for b in blocks(rng, o):
            b.setdefault("user", {"name": "N"})["address"] = a
    elif kind == "meta_one":
        b = rng.choice(blocks(rng, o))
        k = rng.choice(["created", "message", "user", "name", "address", "extra"])
        if k == "created":
            b["created"] = rng.choice(["2019-05-05T05:05:05Z", b["created"], "2020-01-01T00:00:00+01:00"])
        elif k == "message":
            b["message"] = rng.choice(["changed", "", b.get("message", "") + " ", "M"])
        elif k == "user":
            b["user"] = rng.choice([{"name": "other", "address": "mailto:a@example.org"}, {"name": "N"}])
        elif k == "extra":
            b.setdefault("user", {"name": "N"})["more"] = rng.choice([1, "x", None, [], {"y": [1, 2]}])
        else:
            b.setdefault("user", {"name": "N"})[k] = rng.choice(["changed", "N", "mailto:b@example.org"])
        desc.append(k)
    elif kind == "meta_type":    # additional keys are not compared
        b = rng.choice(blocks(rng, o))
        b["comment"] = rng.choice([1, "x", {"a": []}])
    elif kind == "order":
        for i in invs(o):
            if rng.random() < 0.7:
                for v in i["versions"]:
                    i["versions"][v] = objgen.shuffled(rng, i["versions"][v])
    elif kind == "w2":
        for _ in range(rng.choice([1, 1, 2])):
            v = rng.choice(o["vdirs"])
            e = rng.choice(["extra", "extensions", "logs", "content", "data", "v1", "Content", "contentx", "empty", "inventory.json.d"])
            if e in (d["cd"], "inventory.json") or (e == "inventory"):
                continue
            if rng.random() < 0.5:
                o["dirs"].append("%s/%s" % (v, e))
            else:
                o["extra"]["%s/%s/%s" % (v, e, rng.choice(["f", "a/b", "inventory.json"]))] = b"x"
            desc.append(e)
    elif kind == "w3":
        for v in o["vdirs"]:
            if rng.random() < 0.7:
                o["dirs"].append("%s/%s" % (v, d["cd"]))
    elif kind == "ext":
        for e in rng.sample(EXT, rng.choice([1, 1, 2, 3])):
            o["dirs"].append("extensions/" + e)
            desc.append(e)
            if rng.random() < 0.4:
                o["extra"]["extensions/%s/%s" % (e, rng.choice(["config.json", "other/f"]))] = b"{}"
    elif kind == "logs":
        o["extra"]["logs/x/y"] = b"log"
        if rng.random() < 0.5:
            o["dirs"].append("extensions")


def gen(seed, i):
    rng = random.Random("warn-%s-%d" % (seed, i))
    if i % 12 == 11:
        c = None
        while not c:
            c = gen_c10("w%s" % rng.random(), rng.randrange(4000))
        c["desc"] = "rules " + c["desc"]
        c["lax"] = False
        return c
    kind = KINDS[i % len(KINDS)]
    more = rng.random() < 0.35
    d = objgen.gen(rng, pad=rng.choice([2, 3, 5]) if kind == "pad" else None if kind == "random" else 0)
    if kind != "random":
        d = plain(d)
    desc = [kind]
    if kind == "id" or rng.random() < 0.1:
        d["id"] = rng.choice(IDS)
        desc.append(d["id"])
    if kind == "alg":
        k = rng.randrange(d["nv"])
        d["algs"] = rng.choice([["sha256"] * d["nv"], ["sha512"] * k + ["sha256"] * (d["nv"] - k), ["sha256"] * k + ["sha512"] * (d["nv"] - k)])
    if kind in ("skip", "deep"):
        d["skip"] = [n for n in range(d["nv"] - 1) if rng.random() < 0.6]
        d["headinv"] = rng.random() < 0.6
    if kind == "head":
        d["headinv"] = False
    o = objgen.obj(d)
    ks = [kind] + (rng.choices(KINDS, k=2) if more else [])
    for k in ks:
        change(rng, k, d, o, desc)
        if k != kind:
            desc.append(k)
    return {"desc": " ".join(desc), "tree": objgen.emit(o), "lax": rng.random() < 0.1, "dig": rng.random() < 0.8}


def said(log, logged):
    msgs = []
    for m in log.messages:
        x = re.match(r"\[([EW]\d\d\d)|Unknown \w+: ([EW]\d\d\d)", m)
        if x:
            msgs.append({"c": x.group(1) or x.group(2), "words": sorted(set(WORD.findall(m)))})
    return {"wcodes": sorted(set(c[:4] for c in log.codes if c.startswith("W"))), "num": log.num_warnings, "msgs": msgs, "logged": logged}


NOTHING = {"wcodes": [], "num": 0, "msgs": [], "logged": False}


def run(c):
    import ocfl
    from ocfl.validator import Validator
    lax, dig = c["lax"], c["dig"]
    intern = scan.Intern()
    tree = scan.ast(c["tree"], intern)
    outs, res = [], []
    with Dir() as dd:
        root = os.path.join(dd, "obj")
        scan.write_tree(root, c["tree"])
        for how, kw in (("logged", dict(log_warnings=True)), ("unlogged", {}), ("only-warnings", dict(log_warnings=True, log_errors=False))):
            v = Validator(check_digests=dig, lax_digests=lax, **kw)
            r = sut.call(v.validate_object, root)
            outs.append(dict(sut.verdict(how, r, v.log), **(said(v.log, how != "unlogged") if r[0] == "ok" else NOTHING)))
        for logged in (False, True):
            ob = ocfl.Object(lax_digests=lax)
            how = "object-logged" if logged else "object"
            r = sut.call(ob.validate, root, check_digests=dig, log_warnings=logged)
            if r[0] == "exc":
                outs.append(dict(sut.verdict(how, r, None), **NOTHING))
            else:
                outs.append(dict(sut.verdict(how, ("ok", r[1][0]), r[1][1].log), **said(r[1][1].log, logged)))
        res.append({"kind": "obj", "tree": tree, "lax": lax, "dig": dig, "forced": "", "dflt": "1.1", "outs": outs})
        # inventories by themselves
        ps = [p for p in c["tree"]["files"] if p.endswith("inventory.json") and p.count("/") <= 1]
        p = random.Random(c["desc"] + str(len(ps))).choice(sorted(ps)) if ps else None
        x = scan.parse_json(c["tree"]["files"][p]) if p else (False, None)
        if x[0]:
            iv = ocfl.InventoryValidator(lax_digests=lax)
            iv.log.log_warnings = True
            r = sut.call(iv.validate, copy.deepcopy(x[1]))
            o1 = dict(sut.verdict("inventory", r, iv.log), **(said(iv.log, True) if r[0] == "ok" else NOTHING))
            res.append({"kind": "inv", "j": scan.jval(x[1], intern), "lax": lax, "dig": True, "forced": "", "dflt": "1.1", "outs": [o1]})
            ob = ocfl.Object(lax_digests=lax)
            r = sut.call(ob.validate_inventory, os.path.join(root, p), log_warnings=True)
            if r[0] == "ok":
                res[-1]["outs"].append(dict(sut.verdict("inventory-file", ("ok", r[1][0]), r[1][1].log), **said(r[1][1].log, True)))
    return res
