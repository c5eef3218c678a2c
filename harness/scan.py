"""Projection of an object directory (or an inventory) to the abstract syntax
tree that the TLA+ modules work on.  Independent of the ocfl package.
"""
import hashlib
import json
import os
import re

HASHES = {
    "sha512": hashlib.sha512, "sha256": hashlib.sha256, "sha1": hashlib.sha1, "md5": hashlib.md5,
    "blake2b-512": hashlib.blake2b,
    "blake2b-384": lambda b=b"": hashlib.blake2b(b, digest_size=48),
    "blake2b-256": lambda b=b"": hashlib.blake2b(b, digest_size=32),
    "blake2b-160": lambda b=b"": hashlib.blake2b(b, digest_size=20),
}

_cache = {}


def hexes(b):
    """alg -> hex digest of bytes, cached."""
    key = hashlib.sha256(b).digest()
    if key not in _cache:
        if len(_cache) > 200000:
            _cache.clear()
        _cache[key] = {a: f(b).hexdigest() for a, f in HASHES.items()}
    return _cache[key]


class Intern:
    """Bytes -> id, and digest value -> [[alg, id]]."""

    def __init__(self):
        self.ids = {}
        self.digs = {}

    def add(self, b):
        k = hashlib.sha256(b).digest()
        if k not in self.ids:
            i = "B%d" % (len(self.ids) + 1)
            self.ids[k] = i
            for a, h in hexes(b).items():
                self.digs.setdefault(h, []).append([a, i])
        return self.ids[k]

    def token(self, s):
        n = s.lower()
        return {"raw": s, "n": n, "len": len(s), "hex": bool(re.fullmatch(r"[0-9a-fA-F]+", s, re.ASCII)),
                "is": self.digs.get(n, [])}


def vn_token(s):
    m = re.fullmatch(r"v([0-9]+)", s, re.ASCII)
    if not m:
        return {"n": -1, "w": -1}
    d = m.group(1)
    n = int(d)
    if n > 99999999 or n == 0:
        n = -2
    return {"n": n, "w": len(d) if d[0] == "0" else 0}


TS = re.compile(r"([0-9]{4})-([0-9]{2})-([0-9]{2})T([0-9]{2}):([0-9]{2}):([0-9]{2})(\.[0-9]+)?(Z|[+-]([0-9]{2}):([0-9]{2}))", re.ASCII)


def ts_token(s):
    m = TS.fullmatch(s)
    if not m:
        f = "bad"
        if TS.fullmatch(s.upper()):
            f = "open"  # lower case t or z
        return {"f": f, "y": 0, "mo": 0, "d": 0, "h": 0, "mi": 0, "s": 0, "tzh": 0, "tzm": 0}
    g = m.groups()
    return {"f": "full", "y": int(g[0]), "mo": int(g[1]), "d": int(g[2]), "h": int(g[3]), "mi": int(g[4]),
            "s": int(g[5]), "tzh": int(g[8] or 0), "tzm": int(g[9] or 0)}


URI = re.compile(r"([A-Za-z][A-Za-z0-9+.-]*):[A-Za-z0-9\-._~:/?#\[\]@!$&'()*+,;=%]+", re.ASCII)


def uri_token(s, address):
    """Is the text a URI: yes, no, or open (not judged)."""
    m = URI.fullmatch(s)
    if m and (not address or m.group(1) in ("mailto", "http", "https", "urn", "info", "orcid")):
        return "yes"
    if address:
        return "open" if ":" in s else "no"
    return "open" if re.match(r"[A-Za-z][A-Za-z0-9+.-]*:", s, re.ASCII) else "no"


def ext_token(s):
    """Is the name of an extension directory a registered one."""
    m = re.match(r"([0-9]{4})-", s, re.ASCII)
    return "open" if s == "initial" or (m and int(m.group(1)) not in range(1, 6)) else "named"


NOTJSON = {"t": "x"}


def jval(x, intern, ctx=()):
    """Tagged JSON value."""
    if isinstance(x, str):
        r = {"t": "s", "v": x, "g": x.split("/")}
        if len(ctx) == 3 and ctx[0] == "versions" and ctx[2] == "created":
            r["ts"] = ts_token(x)
        elif ctx == ("id",) or ctx[-2:] == ("user", "address"):
            r["uri"] = uri_token(x, len(ctx) > 1)
        return r
    if x is True or x is False:
        return {"t": "b", "v": "true" if x else "false"}
    if x is None:
        return {"t": "z", "v": "null"}
    if isinstance(x, (int, float)):
        return {"t": "n", "v": repr(x)}
    if isinstance(x, list):
        return {"t": "a", "v": [jval(y, intern, ctx + ("[]",)) for y in x]}
    out = []
    for k, w in x.items():
        e = {"k": k, "w": jval(w, intern, ctx + (k,))}
        if ctx == ("manifest",) or (len(ctx) == 3 and ctx[0] == "versions" and ctx[2] == "state") \
                or (len(ctx) == 2 and ctx[0] == "fixity"):
            e["d"] = intern.token(k)
        if ctx == ("versions",):
            e["vn"] = vn_token(k)
        out.append(e)
    return {"t": "o", "v": out}


def parse_json(b):
    """(parsed ok, value): text must be UTF-8 JSON."""
    try:
        return True, json.loads(b.decode("utf-8"))
    except (ValueError, RecursionError):
        return False, None


def jval_bytes(b, intern):
    ok, x = parse_json(b)
    return jval(x, intern) if ok else NOTJSON


def read_tree(root):
    """{'files': {relpath: bytes}, 'dirs': [relpath]} of a directory."""
    files, dirs = {}, []
    for dp, dn, fn in os.walk(root):
        rel = os.path.relpath(dp, root)
        for d in dn:
            dirs.append(d if rel == "." else rel + "/" + d)
        for f in fn:
            with open(os.path.join(dp, f), "rb") as fh:
                files[f if rel == "." else rel + "/" + f] = fh.read()
    return {"files": files, "dirs": sorted(dirs)}


def write_tree(root, tree):
    os.makedirs(root, exist_ok=True)
    for d in tree["dirs"]:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for f, b in tree["files"].items():
        p = os.path.join(root, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as fh:
            fh.write(b)


def norm_tree(tree):
    """Add implied parent directories."""
    dirs = set(tree["dirs"])
    for p in list(tree["files"]) + list(tree["dirs"]):
        while "/" in p:
            p = p.rpartition("/")[0]
            dirs.add(p)
    return {"files": dict(tree["files"]), "dirs": sorted(dirs)}


SIDE = re.compile(r"(\S+)[ \t]+(\S+)\s*\Z", re.ASCII)


def ast(tree, intern=None):
    """Tree of bytes -> abstract tree for TLA+."""
    intern = intern or Intern()
    ids = {p: intern.add(tree["files"][p]) for p in sorted(tree["files"])}
    files = []
    for p in sorted(tree["files"]):
        b = tree["files"][p]
        g = p.split("/")
        e = {"p": g, "k": "c", "c": ids[p]}
        name = g[-1]
        if len(g) <= 2 and name == "inventory.json":
            e["k"] = "inv"
            e["j"] = jval_bytes(b, intern)
        elif len(g) <= 2 and name.startswith("inventory.json."):
            e["k"] = "side"
            e["alg"] = name[len("inventory.json."):]
            form = False
            d = ""
            try:
                first = b.decode("utf-8").split("\n")[0]
                m = SIDE.fullmatch(first)
                if m and m.group(2) == "inventory.json" and re.fullmatch(r"[\w.]+", m.group(1), re.ASCII):
                    form = True
                    d = m.group(1)
            except ValueError:
                pass
            e["form"] = form
            e["d"] = intern.token(d)
        elif len(g) == 1 and name.startswith("0="):
            e["k"] = "nam"
            e["tv"] = name[2:]
            try:
                txt = b.decode("utf-8")
            except ValueError:
                txt = "\0"
            if txt == name[2:] + "\n":
                e["ok"] = "yes"
            elif re.sub(r"[^\w.\-:]", "_", txt.strip()[:40]) == name[2:]:
                e["ok"] = "loose"
            else:
                e["ok"] = "no"
        files.append(e)
    dirs = [{"p": d.split("/"), "v": bool(re.fullmatch(r"v[0-9]+", d, re.ASCII)), "decl": "/" not in d and d.startswith("0="), "ext": ext_token(d.split("/")[-1])}
            for d in tree["dirs"]]
    return {"files": files, "dirs": dirs}
