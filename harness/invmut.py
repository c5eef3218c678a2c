"""Mutations of an inventory (dict), each breaking some rule (or none).
Every mutator takes (rng, inv) and changes inv in place, or returns a
replacement; None/False when it does not apply.
"""
import copy

MUT = {}


def m(f):
    MUT[f.__name__] = f
    return f


WRONG = [None, True, 0, 7.5, [], ["x"], {}, {"a": "b"}, "zzz", ""]


def wrong(rng, kinds):
    return copy.deepcopy(rng.choice([w for w in WRONG if not isinstance(w, kinds) or (isinstance(w, bool) and bool not in (kinds if isinstance(kinds, tuple) else (kinds,)))]))


def ver(rng, inv):
    return inv["versions"][rng.choice(sorted(inv["versions"]))]


def mans(inv):
    return sorted(inv["manifest"])


def rekey(d, old, new, f=lambda x: x):
    items = [(new if k == old else k, f(v) if k == old else v) for k, v in d.items()]
    d.clear()
    d.update(items)


for key in ("id", "type", "digestAlgorithm", "head", "manifest", "versions"):
    def _mk(key):
        def drop(rng, inv):
            del inv[key]
            return True

        def typ(rng, inv):
            inv[key] = wrong(rng, dict if key in ("manifest", "versions") else str)
            return True
        MUT["drop_" + key] = drop
        MUT["type_" + key] = typ
    _mk(key)


@m
def id_empty(rng, inv):
    inv["id"] = ""
    return True


@m
def id_odd_ok(rng, inv):
    inv["id"] = rng.choice([" ", "a b", "http://", "é", "\n", "0"])
    return True


@m
def type_bad(rng, inv):
    inv["type"] = rng.choice([
        "", "https://ocfl.io/1.2/spec/#inventory", "https://ocfl.io/2.0/spec/#inventory", "https://ocfl.io/1.1/spec/",
        "http://ocfl.io/1.1/spec/#inventory", "https://ocfl.io/1.1/spec/#inventory ", " https://ocfl.io/1.1/spec/#inventory",
        "https://ocfl.io/1.1/spec/#inventory\n", "https://ocfl.io/11/spec/#inventory", "https://ocflXio/1.1/spec/#inventory",
        "https://ocfl.io/1.10/spec/#inventory", "https://ocfl.io/01.1/spec/#inventory", "https://ocfl.io/1x1/spec/#inventory",
        "https://ocfl.io/draft/spec/#inventory", "https://ocfl.io/1.0/spec/#Inventory", "https://ocfl.io/1.1/spec/#inventory/more"])
    return True


@m
def type_swap(rng, inv):
    a, b = "https://ocfl.io/1.0/spec/#inventory", "https://ocfl.io/1.1/spec/#inventory"
    inv["type"] = b if inv["type"] == a else a
    return True


@m
def alg_bad(rng, inv):
    inv["digestAlgorithm"] = rng.choice(["md5", "sha1", "blake2b-512", "SHA512", "sha-512", "", "sha512 ", "sha384", "foo", "sha512\n"])
    return True


@m
def alg_swap(rng, inv):
    inv["digestAlgorithm"] = {"sha512": "sha256", "sha256": "sha512"}[inv["digestAlgorithm"]]
    return True


@m
def cd_bad(rng, inv):
    inv["contentDirectory"] = rng.choice(["a/b", "/", "content/", "/content", ".", "..", "../x", None, 7, [], {}, True])
    return True


@m
def cd_other(rng, inv):
    inv["contentDirectory"] = rng.choice(["other", "Content", "conten", "content ", "...", ".content", "v1"])
    return True


@m
def cd_explicit(rng, inv):
    if "contentDirectory" in inv:
        return False
    inv["contentDirectory"] = "content"
    return True


@m
def cd_drop(rng, inv):
    if "contentDirectory" not in inv or inv["contentDirectory"] == "content":
        return False
    del inv["contentDirectory"]
    return True


@m
def head_bad(rng, inv):
    h = inv["head"]
    n = int(h[1:])
    inv["head"] = rng.choice(["v%d" % (n + 1), "v0", "V" + h[1:], h[1:], "head", h + " ", "", "v0" + h[1:], h + "\n",
                              "v%d" % (n - 1) if n > 1 else "v2", " " + h, n, [h]])
    return True


@m
def head_earlier(rng, inv):
    ks = sorted(inv["versions"])
    if len(ks) < 2:
        return False
    inv["head"] = rng.choice([k for k in ks if k != inv["head"]])
    return True


# --- versions ---
@m
def versions_empty(rng, inv):
    inv["versions"] = {}
    return True


def rename_version(inv, old, new):
    rekey(inv["versions"], old, new)
    for d in inv["manifest"]:
        inv["manifest"][d] = [(new + p[len(old):]) if p.startswith(old + "/") else p for p in inv["manifest"][d]]
    for a in inv.get("fixity", {}):
        for d in inv["fixity"][a]:
            inv["fixity"][a][d] = [(new + p[len(old):]) if p.startswith(old + "/") else p for p in inv["fixity"][a][d]]
    if inv["head"] == old:
        inv["head"] = new


@m
def version_rename_bad(rng, inv):
    ks = sorted(inv["versions"], key=lambda k: int(k[1:]))
    old = rng.choice(ks)
    n = int(old[1:])
    new = rng.choice(["v0", "v%d" % (len(ks) + 1), "v%d" % (len(ks) + 3), "V%d" % n, "v-%d" % n, "x", "", "v", "v%d.0" % n,
                      ("v0%d" % n) if old[1] != "0" else "v%d" % n, "v+%d" % n, "v%d " % n, " v%d" % n, "v%d\n" % n, "%d" % n,
                      "v" + "٣"])
    if new in inv["versions"]:
        return False
    rename_version(inv, old, new)
    return True


@m
def version_rename_all_shift(rng, inv):
    ks = sorted(inv["versions"], key=lambda k: int(k[1:]), reverse=True)
    for k in ks:
        rename_version(inv, k, "v%d" % (int(k[1:]) + 1))
    return True


@m
def version_extra(rng, inv):
    h = inv["head"]
    n = len(inv["versions"])
    w = len(h) - 1 if h[1] == "0" else 0
    new = rng.choice(["v0", "x", "v%d" % (n + 2), "v00000%d" % (n + 1), "v%d" % (n + 1) if w else "v0%d" % (n + 1)])
    if new in inv["versions"]:
        return False
    inv["versions"][new] = copy.deepcopy(inv["versions"][h])
    return True


@m
def version_extra_next(rng, inv):
    """A further version, head not moved (E040)."""
    h = inv["head"]
    n = len(inv["versions"])
    new = "v%0*d" % (len(h) - 1, n + 1) if h[1] == "0" else "v%d" % (n + 1)
    inv["versions"][new] = copy.deepcopy(inv["versions"][h])
    return True


@m
def pad_overflow(rng, inv):
    """Zero padded with more versions than the width allows."""
    b = copy.deepcopy(inv["versions"][inv["head"]])
    st = {d: f for d, f in b["state"].items()}
    w = 2
    cnt = rng.choice([9, 10, 11])
    old = sorted(inv["versions"], key=lambda k: int(k[1:]))
    for i, k in enumerate(old):
        rename_version(inv, k, "tmp%d" % i)
    for i, k in enumerate(old):
        rename_version(inv, "tmp%d" % i, "v%02d" % (i + 1))
    for n in range(len(old) + 1, cnt + 1):
        inv["versions"]["v%02d" % n] = dict(copy.deepcopy(b), state=copy.deepcopy(st))
    inv["head"] = "v%02d" % cnt
    return True


@m
def many_versions(rng, inv):
    """Valid: ten or more versions."""
    h = inv["head"]
    w = len(h) - 1 if h[1] == "0" else 0
    if w == 2:
        return False
    b = copy.deepcopy(inv["versions"][h])
    n = len(inv["versions"])
    for k in range(n + 1, rng.choice([10, 11, 12, 13]) + 1):
        inv["head"] = "v%0*d" % (w, k) if w else "v%d" % k
        inv["versions"][inv["head"]] = copy.deepcopy(b)
    return True


@m
def block_type(rng, inv):
    k = rng.choice(sorted(inv["versions"]))
    inv["versions"][k] = wrong(rng, dict)
    return True


@m
def block_empty(rng, inv):
    k = rng.choice(sorted(inv["versions"]))
    inv["versions"][k] = {}
    return True


@m
def created_drop(rng, inv):
    del ver(rng, inv)["created"]
    return True


@m
def created_type(rng, inv):
    ver(rng, inv)["created"] = wrong(rng, str)
    return True


@m
def created_bad(rng, inv):
    ver(rng, inv)["created"] = rng.choice([
        "", "2020", "2020-01", "2020-01-01", "2020-01-01T10:00Z", "2020-01-01T10:00:00", "2020-01-01T10:00:00.5",
        "2020-13-01T10:00:00Z", "2020-00-01T10:00:00Z", "2020-01-32T10:00:00Z", "2020-01-00T10:00:00Z", "2021-02-29T10:00:00Z",
        "1900-02-29T00:00:00Z", "2020-04-31T10:00:00Z", "2020-06-31T10:00:00Z", "2020-02-30T00:00:00Z", "2020-01-01T25:00:00Z",
        "2020-01-01T10:60:00Z", "2020-01-01T10:00:61Z", "2020-01-01T10:00:00+24:00", "2020-01-01T10:00:00+01:60",
        "2020-01-01T10:00:00+0100", "2020-01-01T10:00:00+01", "2020-01-01 10:00:00Z", "2020-1-01T10:00:00Z", "20200101T100000Z",
        "2020-01-01T10:00:00Z ", " 2020-01-01T10:00:00Z", "2020-01-01T10:00:00ZZ", "2020-01-01T10:00:00.Z", "2020-01-01T10:00:00,5Z",
        "2020-01-01T10:00:00Z\n", "not a date", "Wed, 01 Jan 2020", "2020-01-01T10:00:00UTC", "2020-01-01T10:00:00+01:00Z",
        "2020-01-01T1:00:00Z", "2020-01-01T10:0:00Z", "2020-01-01T10:00:0Z", "12020-01-01T10:00:00Z", "20-01-01T10:00:00Z",
        "2020-01-01T10:00+01:00", "2020/01/01T10:00:00Z", "2020-01-01T10:00:00.5.5Z", "2020-01-01T٣0:00:00Z", "2020-01-01T10:00:00 01:00",
        "2020-01-01T10:00:00-99:00", "2020-W01-1T10:00:00Z", "2020-001T10:00:00Z", "0"])
    return True


@m
def created_ok(rng, inv):
    ver(rng, inv)["created"] = rng.choice([
        "2020-02-29T00:00:00Z", "2000-02-29T23:59:59Z", "1999-12-31T23:59:59+23:59", "2020-01-01T10:00:00-00:00",
        "2020-01-01T10:00:00.123456789Z", "9999-12-31T00:00:00Z", "0001-01-01T00:00:00Z", "2020-01-31T10:00:00+14:00",
        "1969-01-01T00:00:00.000Z", "2020-12-31T00:00:00-12:30", "2024-02-29T12:00:00.5-05:00", "2020-10-31T10:00:00Z"])
    return True


@m
def message_type(rng, inv):
    ver(rng, inv)["message"] = wrong(rng, str)
    return True


@m
def message_ok(rng, inv):
    v = ver(rng, inv)
    if rng.random() < 0.5:
        v.pop("message", None)
    else:
        v["message"] = rng.choice(["", "x" * 300, "ü\n\t"])
    return True


@m
def user_type(rng, inv):
    ver(rng, inv)["user"] = wrong(rng, dict)
    return True


@m
def user_name_missing(rng, inv):
    ver(rng, inv)["user"] = rng.choice([{}, {"address": "mailto:a@b"}])
    return True


@m
def user_name_type(rng, inv):
    ver(rng, inv)["user"] = {"name": wrong(rng, str), "address": "mailto:x@y"}
    return True


@m
def user_address_type(rng, inv):
    ver(rng, inv)["user"] = {"name": "N", "address": wrong(rng, str)}
    return True


@m
def user_ok(rng, inv):
    ver(rng, inv)["user"] = rng.choice([{"name": "A"}, {"name": "A", "address": "xyz"}, {"name": "A", "address": "mailto:q", "more": 1}])
    return True


@m
def extra_keys_ok(rng, inv):
    rng.choice([inv, ver(rng, inv)])["extraKey"] = rng.choice([1, None, {"a": []}, "x"])
    return True


# --- manifest ---
def fixdig(rng, d):
    c = rng.choice(["short", "long", "nonhex", "empty", "nl", "space", "tail", "pre"])
    return {"short": d[:-1], "long": d + "0", "nonhex": d[:-1] + "g", "empty": "", "nl": d + "\n", "space": " " + d[1:],
            "tail": d + "zz", "pre": "0x" + d[2:]}[c]


@m
def man_digest_syntax(rng, inv):
    """Same malformed digest in the manifest and all states."""
    if not inv["manifest"]:
        return False
    d = rng.choice(mans(inv))
    n = fixdig(rng, d)
    rekey(inv["manifest"], d, n)
    for v in inv["versions"].values():
        if d in v["state"]:
            rekey(v["state"], d, n)
    return True


@m
def man_digest_syntax_only(rng, inv):
    if not inv["manifest"]:
        return False
    d = rng.choice(mans(inv))
    rekey(inv["manifest"], d, fixdig(rng, d))
    return True


@m
def man_value_type(rng, inv):
    if not inv["manifest"]:
        return False
    d = rng.choice(mans(inv))
    inv["manifest"][d] = wrong(rng, list)
    return True


@m
def man_item_type(rng, inv):
    if not inv["manifest"]:
        return False
    d = rng.choice(mans(inv))
    x = wrong(rng, str)
    if rng.random() < 0.5:
        inv["manifest"][d].append(x)
    else:
        inv["manifest"][d].insert(0, x)
    return True


def other_case(rng, d):
    """Same hexadecimal digest written otherwise."""
    for _ in range(20):
        o = rng.choice([d.upper(), d.lower(), "".join(rng.choice([c.upper(), c.lower()]) for c in d)])
        if o != d:
            return o
    return d.upper() if d != d.upper() else d.lower()


@m
def man_case_dup(rng, inv):
    if not inv["manifest"]:
        return False
    d = rng.choice(mans(inv))
    if d.upper() == d.lower():
        return False
    o = other_case(rng, d)
    v = inv["head"]
    cd = inv.get("contentDirectory", "content")
    inv["manifest"][o] = ["%s/%s/casedup" % (v, cd)]
    return True


@m
def man_case_only(rng, inv):
    """Manifest key differs in case from the state keys."""
    if not inv["manifest"]:
        return False
    d = rng.choice(mans(inv))
    o = other_case(rng, d)
    if o == d:
        return False
    rekey(inv["manifest"], d, o)
    return True


@m
def man_case_all_ok(rng, inv):
    """Upper case consistently: fine."""
    if not inv["manifest"]:
        return False
    d = rng.choice(mans(inv))
    o = other_case(rng, d)
    if o in inv["manifest"]:
        return False
    rekey(inv["manifest"], d, o)
    for v in inv["versions"].values():
        if d in v["state"]:
            rekey(v["state"], d, o)
    return True


def setpath(rng, inv, f):
    ds = [d for d in mans(inv) if inv["manifest"][d]]
    if not ds:
        return False
    d = rng.choice(ds)
    i = rng.randrange(len(inv["manifest"][d]))
    old = inv["manifest"][d][i]
    new = f(old)
    if new is None or new == old:
        return False
    inv["manifest"][d][i] = new
    for a in inv.get("fixity", {}):
        for k in inv["fixity"][a]:
            inv["fixity"][a][k] = [new if p == old else p for p in inv["fixity"][a][k]]
    return True


@m
def cpath_slash(rng, inv):
    return setpath(rng, inv, lambda p: rng.choice(["/" + p, p + "/", "//" + p, p + "//"]))


@m
def cpath_segment(rng, inv):
    def f(p):
        a, b, rest = p.split("/", 2)
        s = rng.choice([".", "..", ""])
        return rng.choice(["/".join([a, b, s, rest]), "/".join([a, b, "x", s, rest]), "/".join([a, b, "y", s, "z"])])
    return setpath(rng, inv, f)


@m
def cpath_last_segment(rng, inv):
    return setpath(rng, inv, lambda p: "/".join(p.split("/")[:2] + [rng.choice([".", ".."])]))


@m
def cpath_outside(rng, inv):
    def f(p):
        a, b, rest = p.split("/", 2)
        return rng.choice([a, a + "/" + b, rest, "%s/%s" % (a, rest.replace("/", "_")), "%s/%sx/%s" % (a, b, rest), "%s/x%s/%s" % (a, b, rest),
                           "v99/%s/%s" % (b, rest), "x/%s/%s" % (b, rest), "../%s/%s" % (b, rest), "%s/../%s" % (a, rest),
                           "%s/./%s" % (a, rest), "%s//%s" % (a, rest), "./" + p, "x/" + p, a.upper() + p[len(a):], "v0/%s/%s" % (b, rest),
                           "v0" + p[1:], "", "content", "extensions/x/" + rest])
    return setpath(rng, inv, f)


@m
def cpath_dup(rng, inv):
    ds = [d for d in mans(inv) if inv["manifest"][d]]
    if not ds:
        return False
    p = rng.choice(inv["manifest"][rng.choice(ds)])
    inv["manifest"][rng.choice(ds)].append(p)
    return True


@m
def cpath_conflict(rng, inv):
    ds = [d for d in mans(inv) if inv["manifest"][d]]
    if not ds:
        return False
    p = rng.choice(inv["manifest"][rng.choice(ds)])
    new = p + rng.choice(["/x", "/x/y/z", "/ "])
    if rng.random() < 0.4 and p.count("/") > 2:
        new = "/".join(p.split("/")[:rng.randint(3, p.count("/"))])
    inv["manifest"][rng.choice(ds)].append(new)
    return True


@m
def cpath_odd_ok(rng, inv):
    return setpath(rng, inv, lambda p: "/".join(p.split("/")[:2] + [rng.choice(["...", ".x", " ", "a b", "~", "v1/content/x", "nl\nx", "é", "x..", "%2F", "\\"])]))


@m
def man_extra_digest(rng, inv):
    """A manifest digest which no version uses (E107)."""
    k = {"sha512": 128, "sha256": 64}[inv["digestAlgorithm"]]
    inv["manifest"]["%0*x" % (k, rng.randrange(16 ** 12))] = ["%s/%s/unused" % (inv["head"], inv.get("contentDirectory", "content"))]
    return True


@m
def man_drop_digest(rng, inv):
    if not inv["manifest"]:
        return False
    del inv["manifest"][rng.choice(mans(inv))]
    return True


@m
def man_extra_path_ok(rng, inv):
    """Another copy (fine for the inventory by itself)."""
    if not inv["manifest"]:
        return False
    inv["manifest"][rng.choice(mans(inv))].append("%s/%s/another_copy" % (inv["head"], inv.get("contentDirectory", "content")))
    return True


# --- state ---
@m
def state_drop(rng, inv):
    del ver(rng, inv)["state"]
    return True


@m
def state_type(rng, inv):
    ver(rng, inv)["state"] = wrong(rng, dict)
    return True


def nonempty(rng, inv):
    vs = [v for v in sorted(inv["versions"]) if inv["versions"][v]["state"]]
    return inv["versions"][rng.choice(vs)]["state"] if vs else None


@m
def state_empty(rng, inv):
    ver(rng, inv)["state"] = {}
    return True


@m
def state_digest_syntax(rng, inv):
    s = nonempty(rng, inv)
    if s is None:
        return False
    d = rng.choice(sorted(s))
    rekey(s, d, fixdig(rng, d))
    return True


@m
def state_digest_unknown(rng, inv):
    s = nonempty(rng, inv)
    if s is None:
        return False
    d = rng.choice(sorted(s))
    n = ("f" if d[0] != "f" else "0") + d[1:]
    if rng.random() < 0.5:
        s[n] = ["newpath"]
    else:
        rekey(s, d, n)
    return True


@m
def state_case(rng, inv):
    s = nonempty(rng, inv)
    if s is None:
        return False
    d = rng.choice(sorted(s))
    o = other_case(rng, d)
    if o == d:
        return False
    rekey(s, d, o)
    return True


@m
def state_value_type(rng, inv):
    s = nonempty(rng, inv)
    if s is None:
        return False
    s[rng.choice(sorted(s))] = wrong(rng, list)
    return True


@m
def state_item_type(rng, inv):
    s = nonempty(rng, inv)
    if s is None:
        return False
    li = s[rng.choice(sorted(s))]
    x = wrong(rng, str)
    li.insert(rng.choice([0, len(li)]), x)
    return True


@m
def lpath_dup(rng, inv):
    s = nonempty(rng, inv)
    if s is None:
        return False
    p = rng.choice(s[rng.choice(sorted(s))])
    s[rng.choice(sorted(s))].append(p)
    return True


@m
def lpath_slash(rng, inv):
    s = nonempty(rng, inv)
    if s is None:
        return False
    d = rng.choice(sorted(s))
    i = rng.randrange(len(s[d]))
    p = s[d][i]
    s[d][i] = rng.choice(["/" + p, p + "/", "//" + p, "/", "//", "/zz", "zz/", "/x/"])
    return True


@m
def lpath_segment(rng, inv):
    s = nonempty(rng, inv)
    if s is None:
        return False
    d = rng.choice(sorted(s))
    i = rng.randrange(len(s[d]))
    x = rng.choice([".", "..", ""])
    p = s[d][i]
    s[d][i] = rng.choice([x, x + "/" + p, "zz/%s/y" % x, "zz/y/%s/w" % x, p + "/" + (x or ".") if False else "q/" + (x or ".")]) if x else rng.choice(["", "zz//y", "zz/y//w"])
    return True


@m
def lpath_conflict(rng, inv):
    s = nonempty(rng, inv)
    if s is None:
        return False
    p = rng.choice(s[rng.choice(sorted(s))])
    new = p + rng.choice(["/x", "/x/y/z"])
    if rng.random() < 0.4 and "/" in p:
        new = "/".join(p.split("/")[:rng.randint(1, p.count("/"))])
    s[rng.choice(sorted(s))].append(new)
    return True


@m
def lpath_odd_ok(rng, inv):
    s = nonempty(rng, inv)
    if s is None:
        return False
    s[rng.choice(sorted(s))].append(rng.choice(["...", "zz/.../y", " ", "zz/ /y", "a\\..\\b", "..z", "z..", "nl\nnl", "%2e%2e", "zz.txt/..x", ".z/.y"]))
    return True


@m
def lpath_prefix_ok(rng, inv):
    """Names that share a prefix without being directory and file."""
    s = nonempty(rng, inv)
    if s is None:
        return False
    s[rng.choice(sorted(s))] += ["pre", "pre.x", "pre-x/y", "pre x/y"]
    return True


# --- fixity ---
def ensure_fix(rng, inv):
    if not isinstance(inv.get("fixity"), dict) or not any(inv["fixity"].values()):
        ps = [p for d in mans(inv) for p in inv["manifest"][d]]
        if not ps:
            return False
        inv["fixity"] = {"md5": {"%032x" % rng.randrange(16 ** 32): [rng.choice(ps)]}}
    return True


def fixblk(rng, inv):
    a = rng.choice([a for a in sorted(inv["fixity"]) if inv["fixity"][a]])
    return a, inv["fixity"][a]


@m
def fix_type(rng, inv):
    inv["fixity"] = wrong(rng, dict)
    return True


@m
def fix_empty_ok(rng, inv):
    inv["fixity"] = rng.choice([{}, {"md5": {}}, {"sha1": {}, "blake2b-160": {}}])
    return True


@m
def fix_alg_unknown(rng, inv):
    inv.setdefault("fixity", {})[rng.choice(["foo", "sha384", "MD5", "", "md5 ", "crc32", "md-5"])] = rng.choice([{}, {"abc": []}])
    return True


@m
def fix_block_type(rng, inv):
    inv.setdefault("fixity", {})["md5"] = wrong(rng, dict)
    return True


@m
def fix_digest_syntax(rng, inv):
    if not ensure_fix(rng, inv):
        return False
    a, b = fixblk(rng, inv)
    d = rng.choice(sorted(b))
    rekey(b, d, fixdig(rng, d))
    return True


@m
def fix_value_type(rng, inv):
    if not ensure_fix(rng, inv):
        return False
    a, b = fixblk(rng, inv)
    b[rng.choice(sorted(b))] = wrong(rng, list)
    return True


@m
def fix_item_type(rng, inv):
    if not ensure_fix(rng, inv):
        return False
    a, b = fixblk(rng, inv)
    b[rng.choice(sorted(b))].append(wrong(rng, str))
    return True


@m
def fix_path_unknown(rng, inv):
    if not ensure_fix(rng, inv):
        return False
    a, b = fixblk(rng, inv)
    li = b[rng.choice(sorted(b))]
    p = "%s/%s/nofile" % (inv["head"], inv.get("contentDirectory", "content"))
    if rng.random() < 0.5 or not li:
        li.append(rng.choice([p, "", "/", "../x"]))
    else:
        li[0] = li[0] + "x"
    return True


@m
def fix_case_dup(rng, inv):
    if not ensure_fix(rng, inv):
        return False
    a, b = fixblk(rng, inv)
    d = rng.choice(sorted(b))
    o = other_case(rng, d)
    if o == d:
        return False
    b[o] = list(b[d])
    return True


# --- whole ---
@m
def not_object(rng, inv):
    return rng.choice([[], [inv], "x", 7, True, None, 1.5])


def mutate(rng, inv, k=1, names=None):
    """Apply k random mutations; returns (names, inventory)."""
    done = []
    cur = copy.deepcopy(inv)
    names = names or sorted(MUT)
    tries = 0
    while len(done) < k and tries < 30:
        tries += 1
        n = rng.choice(names)
        bak = copy.deepcopy(cur)
        try:
            r = MUT[n](rng, cur)
        except (KeyError, TypeError, AttributeError, IndexError, ValueError):
            r = False    # not applicable on top of the others
        if r is True:
            done.append(n)
        elif r is False:
            cur = bak
        else:
            done.append(n)
            return done, r
    return done, cur
