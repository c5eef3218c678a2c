"""Writing and reading BagIt bags, independently of the bagit library."""
import hashlib
import random
import re

import scan

ALGS = ["md5", "sha1", "sha256", "sha512"]
DECL = "BagIt-Version: %s\nTag-File-Character-Encoding: UTF-8\n"
FIELDS = {"id": "External-Identifier", "message": "External-Description", "name": "Contact-Name", "email": "Contact-Email", "date": "Bagging-Date"}


def hexd(alg, b):
    return hashlib.new(alg, b).hexdigest()


def manifest(alg, files):
    return "".join("%s  %s\n" % (hexd(alg, files[p]), p) for p in sorted(files)).encode("utf-8")


def make(payload, info, rng, version=None, algs=None, extra=None):
    """Files of a valid bag with payload {path: bytes} and info <<(tag, value)>>."""
    data = {"data/" + p: b for p, b in payload.items()}
    fs = {"bagit.txt": (DECL % (version or rng.choice(["0.97", "0.97", "1.0"]))).encode()}
    algs = algs or rng.choice([["sha512"], ["sha256"], ["md5"], ["sha1"], ["md5", "sha512"], ["sha256", "sha512"]])
    for a in algs:
        fs["manifest-%s.txt" % a] = manifest(a, data)
    info = list(info)
    if rng.random() < 0.5:
        info.append(("Payload-Oxum", "%d.%d" % (sum(map(len, data.values())), len(data))))
    if info or rng.random() < 0.5:
        fs["bag-info.txt"] = "".join("%s: %s\n" % x for x in info).encode("utf-8")
    fs.update(extra or {})
    if rng.random() < 0.7:
        for a in rng.choice([algs, algs[:1]]):
            t = {p: b for p, b in fs.items() if not p.startswith("tagmanifest-")}
            fs["tagmanifest-%s.txt" % a] = manifest(a, t)
    fs.update(data)
    return {"files": fs, "dirs": [] if data else ["data"]}


MUTS = ["alter", "remove", "extra", "unlisted", "listed", "digest", "altertag", "removetag", "nodecl", "decl", "nomanifest", "nodata", "oxum", "fetch", "fetchmissing", "unknownalg", "info",
        "tagdigest", "swap", "case", "empty", "truncate"]


def mutate(t, rng):
    """Damage the bag a little (in place); returns what was tried."""
    fs = t["files"]
    k = rng.choice(MUTS)
    try:
        _mutate(t, fs, k, rng)
    except (IndexError, KeyError, ValueError):     # not possible after another change
        pass
    return k


def _mutate(t, fs, k, rng):
    pay = sorted(p for p in fs if p.startswith("data/"))
    mans = sorted(p for p in fs if re.match(r"manifest-", p))
    tms = sorted(p for p in fs if p.startswith("tagmanifest-"))
    tags = sorted(p for p in fs if not p.startswith("data/"))

    def lines(f):
        return fs[f].decode("utf-8").split("\n")[:-1]

    def put(f, ls, retag=True):
        fs[f] = "".join(x + "\n" for x in ls).encode("utf-8")
        if retag and rng.random() < 0.8:
            redo()

    def redo():
        for m in tms:
            a = m[len("tagmanifest-"):-4]
            fs[m] = manifest(a, {p: b for p, b in fs.items() if not p.startswith("data/") and not p.startswith("tagmanifest-")})
    if k == "alter" and pay:
        p = rng.choice(pay)
        b = fs[p]
        fs[p] = b + b"x" if not b or rng.random() < 0.5 else bytes([b[0] ^ 1]) + b[1:]
    elif k == "truncate" and pay:
        fs[rng.choice(pay)] = b""
    elif k == "remove" and pay:
        del fs[rng.choice(pay)]
        if not any(p.startswith("data/") for p in fs):
            t["dirs"] = ["data"]
    elif k == "extra":
        fs["data/" + rng.choice(["new", "sub/new", ".hid", "z z"])] = b"unlisted\n"
    elif k == "unlisted" and pay and mans:
        p = rng.choice(pay)
        for m in mans if rng.random() < 0.7 else mans[:1]:
            put(m, [x for x in lines(m) if not x.endswith("  " + p)])
    elif k == "listed" and mans:
        m = rng.choice(mans)
        a = m[len("manifest-"):-4]
        put(m, lines(m) + [hexd(a, b"gone") + "  data/" + rng.choice(["gone", "a/gone", "bag-info.txt"])])
    elif k == "digest" and mans and pay:
        m = rng.choice(mans)
        ls = lines(m)
        i = rng.randrange(len(ls))
        ls[i] = rng.choice("0123456789abcdef") * 3 + ls[i][3:]
        put(m, ls)
    elif k == "swap" and mans and len(pay) > 1:
        m = rng.choice(mans)
        ls = [x.split("  ", 1) for x in lines(m)]
        i, j = rng.sample(range(len(ls)), 2)
        ls[i][0], ls[j][0] = ls[j][0], ls[i][0]
        put(m, ["  ".join(x) for x in ls])
    elif k == "case" and mans and pay:
        m = rng.choice(mans)
        put(m, [x.split("  ", 1)[0].upper() + "  " + x.split("  ", 1)[1] for x in lines(m)])
    elif k == "altertag":
        f = rng.choice([x for x in tags if not x.startswith("manifest") and not x.startswith("tagmanifest") and x != "bagit.txt"] or ["bag-info.txt"])
        fs[f] = fs.get(f, b"") + b"Note: changed\n"
    elif k == "info":
        fs["bag-info.txt"] = fs.get("bag-info.txt", b"") + rng.choice([b"External-Identifier: info:two\n", b"Contact-Name:\n", b"no colon here\n", b"External-Description: one\n  two\n",
                                                                       b"Contact-Email: z@e.org\n", b"External-Description: again\n", b"Bagging-Date: yesterday\n", b"contact-name: lower\n"])
        redo()
    elif k == "removetag" and tms:
        f = rng.choice([x for x in tags if not x.startswith("tagmanifest") and x != "bagit.txt"])
        del fs[f]
    elif k == "tagdigest" and tms:
        m = rng.choice(tms)
        ls = lines(m)
        i = rng.randrange(len(ls))
        ls[i] = rng.choice("0123456789abcdef") * 3 + ls[i][3:]
        put(m, ls, False)
    elif k == "nodecl":
        del fs["bagit.txt"]
        redo()
    elif k == "decl":
        fs["bagit.txt"] = rng.choice([b"", b"BagIt-Version: 0.97\n", b"Tag-File-Character-Encoding: UTF-8\n", b"BagIt-Version: x\nTag-File-Character-Encoding: UTF-8\n", b"bag\n",
                                      b"\xef\xbb\xbfBagIt-Version: 0.97\nTag-File-Character-Encoding: UTF-8\n", b"BagIt-Version: 9.0\nTag-File-Character-Encoding: UTF-8\n", b"\xff\xff"])
        redo()
    elif k == "nomanifest":
        for m in mans:
            del fs[m]
        redo()
    elif k == "nodata":
        for p in pay:
            del fs[p]
        t["dirs"] = []
        for m in mans:
            if rng.random() < 0.5:
                fs[m] = b""
        redo()
    elif k == "oxum":
        n, c = sum(len(fs[p]) for p in pay), len(pay)
        x = rng.choice(["%d.%d" % (n + 1, c), "%d.%d" % (n, c + 1), "0.0", "x", "%d" % n, "%d.%d" % (n, c)])
        ls = [y for y in fs.get("bag-info.txt", b"").decode("utf-8").split("\n")[:-1] if not y.startswith("Payload-Oxum")]
        put("bag-info.txt", ls + ["Payload-Oxum: " + x])
    elif k == "fetch" and pay:
        fs["fetch.txt"] = ("http://localhost:9/x 1 %s\n" % rng.choice(pay)).encode("utf-8")
        redo()
    elif k == "fetchmissing" and pay:
        p = rng.choice(pay)
        fs["fetch.txt"] = ("http://localhost:9/x %d %s\n" % (len(fs[p]), p)).encode("utf-8")
        del fs[p]
        t["dirs"] = ["data"]
        redo()
    elif k == "unknownalg" and mans:
        if rng.random() < 0.5:
            fs["manifest-foo.txt"] = b"00  data/none\n"
        else:
            m = mans[0]
            fs["manifest-foo.txt"] = fs.pop(m)
        redo()
    elif k == "empty":
        fs[rng.choice(tags)] = b""


LINE = re.compile(r"([0-9a-fA-F]+) [ *]?([^\x00-\x1f]+)")


def tagfile(b):
    """[(tag, value)], odd"""
    try:
        txt = b.decode("utf-8")
    except ValueError:
        return [], True
    res, odd = [], False
    for line in txt.split("\n"):
        if line == "":
            continue
        m = re.fullmatch(r"([A-Za-z-]+): ?(.*)", line)
        if not m or m.group(2) != m.group(2).strip() or m.group(2) == "" or re.search(r"[\x00-\x1f\x7f\x85\u2028\u2029]", line):
            odd = True
            continue
        res.append((m.group(1), m.group(2)))
    return res, odd


def ast(t, intern):
    """The bag as OcflBag.tla sees it."""
    fs = t["files"]
    odd = False
    ids = {p: intern.add(b) for p, b in fs.items()}
    mans, tagmans = [], []
    for p in sorted(fs):
        m = re.fullmatch(r"(tag)?manifest-([^/]*)\.txt", p)
        if not m:
            continue
        ent = []
        try:
            txt = fs[p].decode("utf-8")
        except ValueError:
            odd, txt = True, ""
        for line in txt.split("\n"):
            if line == "":
                continue
            x = LINE.fullmatch(line)
            if not x or x.group(2) != x.group(2).strip():
                odd = True
                continue
            q = x.group(2)
            if re.search(r"%0[aAdD]|\$|^~|//|(^|/)\.\.?(/|$)|^/", q):
                odd = True
            ent.append({"p": q.split("/"), "d": intern.token(x.group(1).lower())})
        if len(set(tuple(e["p"]) for e in ent)) != len(ent):
            odd = True
        (tagmans if m.group(1) else mans).append({"alg": m.group(2), "entries": ent})
    for p in fs:
        import unicodedata
        if unicodedata.normalize("NFC", p) != p:
            odd = True
    b = fs.get("bagit.txt")
    if b is None:
        decl = "none"
    elif b in ((DECL % "0.97").encode(), (DECL % "1.0").encode()):
        decl = "good"
    elif b"BagIt-Version" not in b or b"Tag-File-Character-Encoding" not in b:
        decl = "bad"
    else:
        decl = "odd"
    tags, o = tagfile(fs.get("bag-info.txt", b""))
    odd = odd or o
    info = {k: "none" for k in FIELDS}
    low = {v.lower(): k for k, v in FIELDS.items()}
    for tag, value in tags:
        if tag.lower() in low:
            k = low[tag.lower()]
            if info[k] != "none" or tag != FIELDS[k]:
                odd = True
            info[k] = "=" + value
    ox = [v for tag, v in tags if tag.lower() == "payload-oxum"]
    m = re.fullmatch(r"(0|[1-9][0-9]{0,8})\.(0|[1-9][0-9]{0,8})", ox[0], re.ASCII) if len(ox) == 1 else None
    if ox and not m:
        odd = True
    info["ts"] = scan.ts_token(info["date"][1:] + "T00:00:00Z")
    pay = "data" in t["dirs"] or any(p.startswith("data/") for p in fs)
    return {"files": [{"p": p.split("/"), "c": ids[p], "n": len(fs[p])} for p in sorted(fs)], "decl": decl, "data": pay, "mans": mans, "tagmans": tagmans, "fetch": "fetch.txt" in fs, "odd": odd,
            "info": info, "oxum": {"b": int(m.group(1)), "n": int(m.group(2))} if m else {"b": -1, "n": -1}}
