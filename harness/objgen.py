"""Generator of valid OCFL objects (as descriptions, emitted to trees of bytes)
and of mutations of them.  Independent of the ocfl package.
"""
import copy
import json
import random

from scan import hexes, norm_tree

LOGICAL = ["a.txt", "b.txt", "dir/c.txt", "dir/sub/d.txt", "dir2/a.txt", "e", "ünï/ç.txt", "sp ace.txt", "%41.txt", ".hid",
           "content", "inventory.json", "v1/x", "logs/l", "extensions/y", "0=ocfl", "dir-2", "dir2.txt", "a", "q\"uote", "back\\slash", "tab\tx", "d:e"]
CONTENTS = [b"", b"one\n", b"two\n", b"three", b"\x00\xff\xfebin", b"one", b"four " * 40]
BIG = bytes((i * 7 + i // 251) % 256 for i in range(150000))


def dig(alg, b):
    return hexes(b)[alg]


def vdir(n, pad):
    return ("v%0" + str(pad) + "d") % n if pad else "v%d" % n


def gen(rng, nver=None, big=False, simple=False, pad=None, empty=None):
    """Random valid object description."""
    nv = nver or rng.choice([1, 2, 2, 3, 3, 4])
    pad = pad if pad is not None else 0 if simple else rng.choice([0, 0, 0, 2, 3, 5])
    cd = "content" if simple else rng.choice(["content", "content", "data", "content_x", "inventory", ".c"])
    cdset = cd != "content" or rng.random() < 0.2
    algs, specs = [], []
    alg = rng.choice(["sha512", "sha512", "sha256"])
    spec = rng.choice(["1.0", "1.1", "1.1"])
    for _ in range(nv):
        algs.append(alg)
        specs.append(spec)
        if rng.random() < 0.25 and not simple:
            alg = {"sha512": "sha256", "sha256": "sha512"}[alg]
        if rng.random() < 0.3:
            spec = "1.1"
    oid = rng.choice(["info:x", "http://example.org/o1", "ark:/1/2", "just a string", "ünicode:é"])
    if empty is None:    # versions at the beginning without files
        empty = rng.choice([1, 1, 2]) if not simple and rng.random() < 0.06 else 0
    pool = list(CONTENTS) + ([BIG] if big else [])
    states, content = [], {}
    cur = {}
    where = {}    # bytes -> [content paths]
    for n in range(1, nv + 1):
        v = vdir(n, pad)
        if n <= empty or (n > 1 and rng.random() < 0.15):
            pass
        elif not simple and rng.random() < 0.04:
            cur = {}
        else:
            cur = dict(cur)
            for p in list(cur):
                if rng.random() < 0.3:
                    del cur[p]
            for _ in range(rng.randint(1 if not cur else 0, 4)):
                p = rng.choice(LOGICAL)
                if not any(q.startswith(p + "/") or p.startswith(q + "/") for q in cur):
                    cur[p] = rng.choice(pool)
            if rng.random() < 0.2 and n > 1:
                cur = dict(states[0])   # revert
        new = {}
        for p, b in sorted(cur.items()):
            if b not in where or (rng.random() < 0.15 and b not in new.values()):
                cp = "%s/%s/%s" % (v, cd, rng.choice([p, p.replace("/", "_"), "f%d" % len(content)]))
                if cp in content or any(q.startswith(cp + "/") or cp.startswith(q + "/") for q in content):
                    cp = "%s/%s/u%d" % (v, cd, len(content))
                content[cp] = b
                new[cp] = b
                where.setdefault(b, []).append((n, cp))
        states.append(dict(cur))
    meta = []
    for n in range(nv):
        m = {"created": "2020-%02d-%02dT%02d:00:%02d%s" % (n % 12 + 1, rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59),
                                                          rng.choice(["Z", "+01:00", "-11:30", ".123Z", ".5+00:00"]))}
        if rng.random() < 0.8:
            m["message"] = rng.choice(["msg %d" % n, "", "ünï"])
        if rng.random() < 0.8:
            m["user"] = {"name": "N%d" % n}
            if rng.random() < 0.7:
                m["user"]["address"] = rng.choice(["mailto:a@example.org", "no address scheme"])
        meta.append(m)
    fix = []
    for n in range(nv):
        # fixity of version n: {alg: [content paths]} or None
        f = None
        if rng.random() < 0.4:
            f = {}
            av = [cp for b in where for (k, cp) in where[b] if k <= n + 1]
            for a in rng.sample(["md5", "sha1", "sha256", "sha512", "blake2b-512", "blake2b-160", "blake2b-256", "blake2b-384"], rng.randint(0, 3)):
                f[a] = sorted(rng.sample(av, rng.randint(0, len(av))))
        fix.append(f)
    skip = set(n for n in range(nv - 1) if rng.random() < 0.12)   # versions without inventory
    d = dict(id=oid, nv=nv, pad=pad, cd=cd, cdset=cdset, algs=algs, specs=specs, states=states, content=content, meta=meta,
             fix=fix, skip=sorted(skip), where=where, headinv=rng.random() < 0.95, upper=rng.random() < 0.1, rngseed=rng.random())
    return d


def inventory(d, n):
    """Inventory (dict) of the description d at version n (1-based)."""
    alg = d["algs"][n - 1]
    up = (lambda s: s.upper()) if d["upper"] else (lambda s: s)
    inv = {"id": d["id"], "type": "https://ocfl.io/%s/spec/#inventory" % d["specs"][n - 1], "digestAlgorithm": alg,
           "head": vdir(n, d["pad"])}
    if d["cdset"]:
        inv["contentDirectory"] = d["cd"]
    man, vers = {}, {}
    for b, ws in d["where"].items():
        ps = [cp for (k, cp) in ws if k <= n]
        used = any(b in d["states"][k].values() for k in range(n))
        if ps and used:
            man[up(dig(alg, b))] = ps
    for k in range(n):
        st = {}
        for p, b in d["states"][k].items():
            st.setdefault(up(dig(alg, b)), []).append(p)
        vers[vdir(k + 1, d["pad"])] = dict(state=st, **copy.deepcopy(d["meta"][k]))
    inv["manifest"] = man
    inv["versions"] = vers
    f = d["fix"][n - 1]
    if f is not None:
        inv["fixity"] = {}
        for a, ps in f.items():
            blk = {}
            for p in ps:
                blk.setdefault(dig(a, d["content"][p]), []).append(p)
            inv["fixity"][a] = blk
    return inv


def obj(d):
    """Mutable object: declaration, inventories, content; see emit()."""
    nv = d["nv"]
    o = {"decls": {"0=ocfl_object_" + d["specs"][-1]: b"ocfl_object_%s\n" % d["specs"][-1].encode()},
         "root": inventory(d, nv), "vinv": {}, "content": dict(d["content"]), "headv": vdir(nv, d["pad"]),
         "vdirs": [vdir(k, d["pad"]) for k in range(1, nv + 1)], "headinv": d["headinv"], "extra": {}, "dirs": []}
    for k in range(1, nv):
        if k - 1 not in d["skip"]:
            o["vinv"][vdir(k, d["pad"])] = inventory(d, k)
    return o


def shuffled(rng, x):
    """Same JSON value with the keys of objects in random order."""
    if isinstance(x, dict):
        ks = list(x)
        rng.shuffle(ks)
        return {k: shuffled(rng, x[k]) for k in ks}
    if isinstance(x, list):
        return [shuffled(rng, y) for y in x]
    return x


def dump(inv):
    if isinstance(inv, dict):
        rng = random.Random(repr(sorted(inv.items(), key=repr))[:2000])
        if rng.random() < 0.5:
            inv = shuffled(rng, inv)
    return (json.dumps(inv, indent=1, ensure_ascii=False) + "\n").encode("utf-8")


def sidecar(b, alg, style=0):
    sep = [" ", "  ", "\t", "   "][style % 4]
    return (hexes(b)[alg] + sep + "inventory.json\n").encode()


def inv_alg(inv):
    a = inv.get("digestAlgorithm", "sha512") if isinstance(inv, dict) else "sha512"
    return a if isinstance(a, str) and a in ("sha512", "sha256", "sha1", "md5", "blake2b-512", "blake2b-160", "blake2b-256", "blake2b-384") else "sha512"


def emit(o):
    """Object -> tree of bytes, with matching sidecars and head copy."""
    files = dict(o["decls"])
    dirs = list(o["vdirs"]) + list(o["dirs"])
    root = dump(o["root"])
    ra = inv_alg(o["root"])
    files["inventory.json"] = root
    files["inventory.json." + ra] = sidecar(root, ra, len(root))
    if o["headinv"]:
        files[o["headv"] + "/inventory.json"] = root
        files[o["headv"] + "/inventory.json." + ra] = sidecar(root, ra)
    for v, inv in o["vinv"].items():
        b = dump(inv)
        a = inv_alg(inv)
        files[v + "/inventory.json"] = b
        files[v + "/inventory.json." + a] = sidecar(b, a, len(b))
    for p, b in o["content"].items():
        files[p] = b
    files.update(o["extra"])
    return norm_tree({"files": files, "dirs": dirs})
