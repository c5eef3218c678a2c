"""Layouts: paths of identifiers and acceptance of parameters."""
import hashlib
import itertools
import json
import os
import random

from runner import Dir
from sut import call

NAMES = ["0002-flat-direct-storage-layout", "0002", "flat-direct", "0003-hash-and-id-n-tuple-storage-layout", "0003",
         "nnnn-flat-quoted-storage-layout", "flat-quoted", "nnnn-tuple-tree-layout", "nnnn-tuple-tree", "nnnn-uuid-quadtree"]
CANON = {"0002": 0, "flat-direct": 0, "0003": 3, "flat-quoted": 5, "nnnn-tuple-tree": 7}
FULL = {n: (NAMES[CANON[n]] if n in CANON else n) for n in NAMES}
KIND = {"0002-flat-direct-storage-layout": "0002", "0003-hash-and-id-n-tuple-storage-layout": "0003", "nnnn-flat-quoted-storage-layout": "quoted",
        "nnnn-tuple-tree-layout": "tuple", "nnnn-uuid-quadtree": "uuid"}
ALPHA = "./%+ :=,^a2\u00e9\x7f\t\u20ac"
ALGS = ["sha512", "sha256", "sha1", "md5"]


def cps(s):
    return [ord(c) for c in s]


def jtok(x):
    """Tagged JSON with numbers for OcflLayout."""
    if isinstance(x, bool):
        return {"t": "b", "v": "true" if x else "false"}
    if x is None:
        return {"t": "z", "v": "null"}
    if isinstance(x, int):
        return {"t": "n", "v": str(x), "int": True, "i": x if abs(x) < 10 ** 6 else -1}
    if isinstance(x, float):
        return {"t": "n", "v": repr(x), "int": False, "i": -1}
    if isinstance(x, str):
        return {"t": "s", "v": x.encode("ascii", "backslashreplace").decode(), "cp": cps(x)}
    if isinstance(x, list):
        return {"t": "a", "v": [jtok(y) for y in x]}
    return {"t": "o", "v": [{"k": k, "w": jtok(w)} for k, w in x.items()]}


def outcome(r, refusal):
    """A path, a refusal or a crash."""
    if r[0] == "ok":
        p = r[1]
        if not isinstance(p, str):
            return {"r": "exc", "p": [], "e": "not a string: %r" % (p,)}
        return {"r": "path", "p": [cps(s) for s in p.split("/")], "e": ""}
    if r[1] == refusal:
        return {"r": "refused", "p": [], "e": ""}
    return {"r": "exc", "p": [], "e": r[1]}


def new_layout(name, conf):
    """(outcome of parameters, layout)."""
    from ocfl.layout_registry import get_layout
    la = get_layout(name)
    if conf is None:
        return "ok", la, ""
    r = call(la.check_and_set_layout_params, json.loads(json.dumps(conf)), require_extension_name=False)
    return ("ok" if r[0] == "ok" else "refused" if r[1] == "LayoutException" else "exc"), la, (r[1] if r[0] != "ok" else "")


def run(case):
    from ocfl import StorageRoot
    name, conf, ids = case["layout"], case["conf"], case["ids"]
    outs = []
    st, la, e = new_layout(name, conf)
    if conf is not None:
        outs.append({"how": "params", "need": False, "r": st, "e": e})
        from ocfl.layout_registry import get_layout
        r = call(get_layout(name).check_and_set_layout_params, json.loads(json.dumps(conf)))
        outs.append({"how": "params-named", "need": True, "r": "ok" if r[0] == "ok" else "refused" if r[1] == "LayoutException" else "exc",
                     "e": r[1] if r[0] != "ok" else ""})
    maps = []
    with Dir() as d:
        root = os.path.join(d, "root")
        os.makedirs(root)
        with open(os.path.join(root, "0=ocfl_1.1"), "w") as fh:
            fh.write("ocfl_1.1\n")
        with open(os.path.join(root, "ocfl_layout.json"), "w") as fh:
            json.dump({"extension": name, "description": "d"}, fh)
        if conf is not None:
            os.makedirs(os.path.join(root, "extensions", FULL[name]))
            with open(os.path.join(root, "extensions", FULL[name], "config.json"), "w", encoding="utf-8") as fh:
                json.dump(conf, fh)
        store = StorageRoot(root)
        r = call(store.object_path, "urn:uuid:6ba7b810-9dad-11d1-80b4-00c04fd430c8")
        rootok = r[0] == "ok" or store._layout is not None and "Cannot determine path" in r[2]
        if conf is not None and FULL[name] in ("0003-hash-and-id-n-tuple-storage-layout", "nnnn-tuple-tree-layout", "nnnn-uuid-quadtree"):
            outs.append({"how": "config.json", "need": True, "r": "ok" if rootok else "refused" if r[1] == "StorageRootException" else "exc",
                         "e": "" if r[0] == "ok" else r[1]})
        if st == "ok":
            alg = (conf or {}).get("digestAlgorithm", "sha256")
            store2 = StorageRoot(root)
            for i in ids:
                o = [dict(outcome(call(la.identifier_to_path, i), "LayoutException"), how="layout")]
                if case["more"]:
                    la2 = new_layout(name, conf)[1]
                    o.append(dict(outcome(call(la2.identifier_to_path, i), "LayoutException"), how="fresh"))
                if rootok and case["more"]:
                    o.append(dict(outcome(call(store2.object_path, i), "StorageRootException"), how="root"))
                    o.append(dict(outcome(call(store.object_path, i), "StorageRootException"), how="root-again"))
                try:
                    dg = hashlib.new(alg, i.encode("utf-8")).hexdigest() if alg in ALGS else ""
                except UnicodeEncodeError:
                    dg = ""
                maps.append({"i": cps(i), "d": cps(dg), "o": o})
    return [{"layout": name, "conf": {"t": "none"} if conf is None else jtok(conf), "outs": outs, "maps": maps}]


# ---- generators ----
def grid():
    """Layout configurations whose mapping is compared for all short identifiers."""
    res = [("0002", None), ("flat-quoted", None), ("nnnn-tuple-tree", None), ("0003", None)]
    res += [("nnnn-tuple-tree-layout", {"tupleSize": n}) for n in range(2, 7)]
    f = lambda a, s, n: ("0003-hash-and-id-n-tuple-storage-layout", {"digestAlgorithm": a, "tupleSize": s, "numberOfTuples": n})  # noqa: E731
    res += [f("md5", 0, 0), f("sha1", 1, 2), f("sha512", 32, 4), f("sha512", 4, 32), f("md5", 32, 1), f("sha256", 2, 32)]
    return res


PER = 240


def short_ids(n, alpha=ALPHA):
    return [""] + ["".join(t) for k in range(1, n + 1) for t in itertools.product(alpha, repeat=k)]


def grid_size(n):
    c = len(short_ids(n))
    return len(grid()) * ((c + PER - 1) // PER)


def gen_grid(n):
    def gen(seed, i):
        ids = short_ids(n)
        per = (len(ids) + PER - 1) // PER
        name, conf = grid()[i // per]
        k = i % per
        return {"desc": "grid %s %s part %d" % (name, conf, k), "layout": name, "conf": conf, "ids": ids[k * PER:(k + 1) * PER], "more": False}
    return gen


CHARS = list("abzAZ019-_.~/:%+ =,^\"*<>?\\|&#@!$'();{}[]`\x00\x01\x1f\x7f\t\n\r") + ["\u00e9", "e\u0301", "\u0660", "\uff0e", "\uff0f", "\u20ac",
                                                                                 "\u4e2d", "\U0001f600", "\u200d", "\ufeff", "\u0130", "\u2028", "\u212a", "\u017f", "\xaa", "\xb5", "\xad"]
WORDS = ["..", ".", "../..", "/", "//", "%2F", "%2f", "%2E%2E", "http://example.org/", "info:", "ark:/123/", "urn:uuid:", "a", "aa", "object-01", "..hor_rib:lé-$id",
         "extensions", "ocfl_layout.json", "0=ocfl_1.1", "^2f", "+", "a" * 99, "a" * 100, "a" * 101, "é" * 17, ":" * 33, ":" * 34, "é" * 50, "x" * 254, "-" * 36]


def ident(rng):
    r = rng.random()
    if r < 0.25:
        return "".join(rng.choice(CHARS) for _ in range(rng.randint(0, 12)))
    if r < 0.5:
        return "".join(rng.choice(WORDS) if rng.random() < 0.5 else rng.choice(CHARS) for _ in range(rng.randint(1, 5)))
    if r < 0.6:
        return "".join(rng.choice(CHARS) for _ in range(rng.randint(28, 120)))
    if r < 0.68:
        k = rng.randint(95, 105)
        return "".join(rng.choice("abc-_9") for _ in range(k)) + rng.choice(["", "é", ":", "."])
    if r < 0.78:
        return "".join(chr(rng.randint(1, 0x2ff)) for _ in range(rng.randint(1, 8)))
    if r < 0.8:
        return "a" + chr(0xd800 + rng.randint(0, 2047)) + "b"
    return rng.choice(WORDS)


def uuid_id(rng, prefix):
    h = "".join(rng.choice("0123456789abcdef") for _ in range(32))
    s = "-".join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])
    r = rng.random()
    if r < 0.4:
        return prefix + s
    k = rng.randrange(len(s))
    s2 = rng.choice([s[:k] + rng.choice("gABF-\u0661 /.\n") + s[k + 1:], s[:-1], s + "0", s.upper(), s.replace("-", ""), s + "\n", "/" + s, s[:k] + s[k + 1:],
                     s[:k] + "-" + s[k:], "{" + s + "}", s.replace("-", "\u2010")])
    return rng.choice([prefix, prefix, prefix, "", prefix.upper(), prefix[:-1], " " + prefix, prefix + prefix]) + s2


def good_conf(rng, kind):
    if kind == "0003":
        a = rng.choice(ALGS)
        n = {"sha512": 128, "sha256": 64, "sha1": 40, "md5": 32}[a]
        s = rng.randint(1, 32)
        k = rng.randint(1, min(32, n // s)) if rng.random() < 0.7 else min(32, n // s)
        if rng.random() < 0.15:
            s = k = 0
        return {"digestAlgorithm": a, "tupleSize": s, "numberOfTuples": k}
    if kind == "tuple":
        return {"tupleSize": rng.randint(2, 6)}
    if kind == "uuid":
        return {"prefix": rng.choice(["urn:uuid:", "uuid:", "x", "", "é:", "http://example.org/u/", "(", "a.c:", "^", "urn:uuid:".upper()]) or "u"}
    return {}


def gen_random(seed, i):
    rng = random.Random("c13-%s-%d" % (seed, i))
    name = rng.choice(NAMES)
    kind = KIND[FULL[name]]
    conf = None if rng.random() < 0.3 else dict(good_conf(rng, kind), **({"extensionName": FULL[name]} if True else {}))
    if conf is None and kind not in ("0002", "quoted") and rng.random() < 0.3:
        conf = None
    pre = (conf or {}).get("prefix", "urn:uuid:")
    ids = [uuid_id(rng, pre) if kind == "uuid" and rng.random() < 0.8 else ident(rng) for _ in range(12)]
    if rng.random() < 0.5:
        # near pairs: identifiers which a sloppy mapping might confuse
        b = ids[0]
        ids += [b + " ", b + "+", b.replace("/", "%2F"), b.replace(":", "+"), b.lower(), b.upper(), b.replace("é", "e\u0301"), b.rstrip(), b + "/", "/" + b, b + "."]
    return {"desc": "ids %s %s %r" % (name, conf, ids[:2]), "layout": name, "conf": conf, "ids": sorted(set(ids), key=lambda s: rng.random()), "more": True}


VALUES = [None, True, False, 0, 1, -1, 2, 3, 6, 7, 32, 33, 31, 64, 10 ** 9, 10 ** 30, 3.0, 2.5, 0.0, -0.0, 1e1, "3", "", "0", "sha256", "sha512", "SHA256", "md5", "sha-256", "sha224",
          "blake2b-512", "blake2b-160", "sha512/256", "crc32", [], {}, [3], {"a": 1}, "urn:uuid:", " ", "\n", "é"]


def gen_params(seed, i):
    rng = random.Random("c13p-%s-%d" % (seed, i))
    name = rng.choice(NAMES[3:5] * 3 + NAMES[7:] * 2 + NAMES[:3] + NAMES[5:7])
    kind = KIND[FULL[name]]
    conf = dict(good_conf(rng, kind), extensionName=FULL[name])
    keys = {"0003": ["digestAlgorithm", "tupleSize", "numberOfTuples"], "tuple": ["tupleSize"], "uuid": ["prefix"]}.get(kind, [])
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        r = rng.random()
        if r < 0.7 and keys:
            k = rng.choice(keys)
            conf[k] = rng.randint(-1, 34) if "uple" in k and rng.random() < 0.5 else rng.choice(VALUES)
        elif r < 0.8:
            conf["extensionName"] = rng.choice(VALUES + NAMES * 3)
        elif r < 0.85:
            conf.pop("extensionName", None)
        elif r < 0.92 and keys:
            conf.pop(rng.choice(keys), None)
        else:
            conf[rng.choice(["extra", "TupleSize", "tuplesize", "$schema"])] = rng.choice(VALUES)
    if rng.random() < 0.3 and kind == "0003":
        conf["tupleSize"], conf["numberOfTuples"] = rng.choice([(0, 0), (0, 1), (1, 0), (0, 3), (3, 0), (32, 4), (4, 32), (32, 2), (2, 32), (8, 4), (4, 8), (5, 8), (8, 8), (32, 5), (9, 8), (2, 17), (16, 2), (11, 3), (32, 32)])
    pre = conf.get("prefix") if isinstance(conf.get("prefix"), str) else "urn:uuid:"
    ids = [uuid_id(rng, pre) for _ in range(2)] if kind == "uuid" else ["a", ident(rng)]
    return {"desc": "params %s %r" % (name, conf), "layout": name, "conf": conf, "ids": sorted(set(ids)), "more": False}
