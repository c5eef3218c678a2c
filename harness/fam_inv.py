"""Calls of the inventory interface (ocfl.Inventory, ocfl.Version), recorded
for InvJudge.tla: random traces, and every transition of InvModel.tla."""
import copy
import io
import json
import os
import random
import re

import sut
import tlc

DIGS = ["aa", "AA", "Aa", "bb", "BB", "cc", "d" * 8]
LPS = ["a", "b", "d/a", "d/e/f", "a__2", "A", "ü"]
ALGS = ["md5", "sha1", "x"]


def opt(x):
    return "none" if x is None else "=" + x


def es(m):
    return [{"d": d, "ps": list(ps)} for d, ps in m.items()]


def blk(o, k):
    return {"has": k in o, "es": es(o.get(k, {}))}


def usr(o):
    u = o.get("user", {})
    return {"has": "user" in o, "name": opt(u.get("name")), "address": opt(u.get("address"))}


def nums(v):
    m = re.match(r"v(0?)(\d+)$", v)
    return int(m.group(2)), len(v) - 1 if m.group(1) else 0


def absx(d):
    """Inventory data as in OcflInv."""
    vs = []
    for v, b in d.get("versions", {}).items():
        n, w = nums(v)
        vs.append({"v": v, "n": n, "w": w, "created": opt(b.get("created")), "message": opt(b.get("message")), "user": usr(b), "state": blk(b, "state")})
    return {"type": opt(d.get("type")), "alg": opt(d.get("digestAlgorithm")), "id": opt(d.get("id")), "head": opt(d.get("head")), "cd": opt(d.get("contentDirectory")),
            "man": blk(d, "manifest"), "fix": {"has": "fixity" in d, "bs": [{"a": a, "es": es(m)} for a, m in d.get("fixity", {}).items()]},
            "vers": {"has": "versions" in d, "vs": vs}}


def unes(l):
    return {e["d"]: list(e["ps"]) for e in l}


def data(x):
    """Inventory data from OcflInv form."""
    d = {}
    for k, n in (("type", "type"), ("alg", "digestAlgorithm"), ("id", "id"), ("head", "head"), ("cd", "contentDirectory")):
        if x[k] != "none":
            d[n] = x[k][1:]
    if x["man"]["has"]:
        d["manifest"] = unes(x["man"]["es"])
    if x["fix"]["has"]:
        d["fixity"] = {b["a"]: unes(b["es"]) for b in x["fix"]["bs"]}
    if x["vers"]["has"]:
        d["versions"] = {}
        for y in x["vers"]["vs"]:
            b = d["versions"][y["v"]] = {}
            for k in ("created", "message"):
                if y[k] != "none":
                    b[k] = y[k][1:]
            if y["user"]["has"]:
                b["user"] = {k: y["user"][k][1:] for k in ("name", "address") if y["user"][k] != "none"}
            if y["state"]["has"]:
                b["state"] = unes(y["state"]["es"])
    return d


def observe(inv):
    """Everything that can be read (exceptions become a value that nothing equals)."""
    import ocfl
    d = json.loads(inv.as_json())
    cps = sorted({p for ps in d.get("manifest", {}).values() for p in ps}) + ["v1/content/none"]
    ds = sorted(set(d.get("manifest", {})) | {x for v in d.get("versions", {}).values() for x in v.get("state", {})}) + ["ff"]
    lps = sorted({p for v in d.get("versions", {}).values() for ps in v.get("state", {}).values() for p in ps}) + ["nowhere"]

    def pair(r):
        return {"v": opt(r[0]), "cp": opt(r[1])}

    def version(v):
        vm = ocfl.VersionMetadata(inventory=inv, version=v.vdir)
        return {"v": v.vdir, "n": v.number, "created": opt(v.created), "message": opt(v.message), "name": opt(v.user_name), "address": opt(v.user_address),
                "vm": {"id": opt(vm.id), "created": opt(vm.created), "message": opt(vm.message), "name": opt(vm.name), "address": opt(vm.address)},
                "state": es(v.state), "lps": list(v.logical_paths),
                "look": [{"p": p, "d": opt(v.digest_for_logical_path(p)), "cp": opt(v.content_path_for_logical_path(p))} for p in lps]}
    return {"spec": opt(inv.spec_version), "alg": opt(inv.digest_algorithm), "id": opt(inv.id), "head": opt(inv.head), "cd": opt(inv.content_directory),
            "cduse": inv.content_directory_to_use, "man": es(inv.manifest), "fix": [{"a": a, "es": es(m)} for a, m in inv.fixity.items()],
            "content": [{"p": p, "d": x} for p, x in inv.content.items()], "cpaths": list(inv.content_paths), "vdirs": list(inv.version_directories),
            "vnums": list(inv.version_numbers), "cpd": [{"p": p, "d": opt(inv.digest_for_content_path(p))} for p in cps],
            "dcp": [{"d": x, "ps": list(inv.content_paths_for_digest(x)), "one": opt(inv.content_path_for_digest(x))} for x in ds],
            "find": [dict(pair(inv.find_logical_path(p)), lp=p) for p in lps],
            "cur": inv.current_version.vdir if inv.head is not None else "", "vers": [version(v) for v in inv.versions()]}


class Trace:
    def __init__(self, d, how="data"):
        import ocfl
        if how == "copy":
            self.inv = ocfl.Inventory(data=ocfl.Inventory(data=d))
        elif how == "new" and not d:
            self.inv = ocfl.Inventory()
        else:
            self.inv = ocfl.Inventory(data=d)
        self.x = absx(self.now())
        self.x0 = self.x
        self.obs0 = observe(self.inv)
        self.steps = []
        self.others = []     # (inventory, its JSON): copies that must stay as they are

    def now(self):
        return json.loads(self.inv.as_json())

    def do(self, o):
        import ocfl
        inv = self.inv
        k = o["op"]
        v = inv.version(o["v"]) if isinstance(o.get("v"), str) else None

        def fn():
            if k == "set":
                setattr(inv, {"type": "spec_version", "alg": "digest_algorithm", "id": "id", "head": "head", "cd": "content_directory"}[o["k"]], o["raw"])
            elif k == "meta":
                setattr(v, {"created": "created", "message": "message", "name": "user_name", "address": "user_address"}[o["k"]], o["val"][1:])
            elif k == "manifest":
                inv.manifest_add_if_not_present()
            elif k == "init":
                inv.init_manifest_and_versions()
            elif k == "state":
                v.state_add_if_not_present()
            elif k == "user":
                v.user_add_if_not_present()
            elif k == "addversion":
                m = None
                if o["meta"]["has"]:
                    q = {"created": o["meta"]["created"], "message": o["meta"]["message"], "name": o["meta"]["user"]["name"], "address": o["meta"]["user"]["address"]}
                    q = {a: None if b in ("none", "now") else b[1:] for a, b in q.items()}
                    m = ocfl.VersionMetadata(**q)
                    if o["asdict"]:
                        m = m.as_dict()
                r = inv.add_version(vdir=o["v"]["v"] or None, metadata=m, state=unes(o["state"]["es"]) if o["state"]["has"] else None, zero_padded_width=o["pad"] or None)
                return opt(r.vdir)
            elif k == "manadd":
                inv.add_file_to_manifest(digest=o["d"], content_path=o["cp"])
            elif k == "addfile":
                return v.add_file(digest=o["d"], logical_path=o["lp"], content_path=o["cp"] or None, dedupe=o["dedupe"])
            elif k == "delete":
                return opt(v.delete_logical_path(o["lp"]))
            elif k == "fixtype":
                inv.add_fixity_type(o["a"], unes(o["es"]) if o["es"] or o["withmap"] else None)
            elif k == "fixdata":
                inv.add_fixity_data(o["a"], o["d"], o["cp"])
            elif k == "normalise":
                inv.normalize_digests(o["alg"])
            elif k == "copy":
                n = ocfl.Inventory(inv)
                self.others.append((inv, inv.as_json()))
                self.inv = n
            return None
        r = sut.call(fn)
        e = dict(o)
        e["res"] = "refused" if r[0] == "exc" else "ok"
        e["ret"] = r[1] if r[0] == "ok" and k in ("delete", "addversion") else "none"
        e["got"] = "none"
        if k == "addfile":
            c = r[1] if r[0] == "ok" else None
            e["got"] = "none" if c is None else c
            ps = (c or "").split("/")
            e["cpdir"], e["cpcd"] = ps[0], ps[1] if len(ps) > 1 else ""
        if r[0] == "exc":
            e["exc"] = r[1] + ": " + r[2]
        e["x"] = self.x = absx(self.now())
        ob = sut.call(observe, self.inv)
        e["obs"] = ob[1] if ob[0] == "ok" else None
        if ob[0] == "exc":
            raise AssertionError("reading failed: %r" % (ob,))
        fh = io.StringIO()
        self.inv.write_json(fh)
        e["same"] = json.loads(fh.getvalue()) == self.inv.data and ocfl.Inventory(data=json.loads(fh.getvalue())).data == self.inv.data \
            and all(i.as_json() == j for i, j in self.others)
        e["keeps"] = k != "init"
        self.steps.append(e)
        return e

    def result(self):
        paths, digs = set(), set()
        for x in [self.x0] + [e["x"] for e in self.steps]:
            for l in [x["man"]["es"]] + [b["es"] for b in x["fix"]["bs"]] + [y["state"]["es"] for y in x["vers"]["vs"]]:
                digs |= {q["d"] for q in l}
            for q in x["man"]["es"]:
                paths |= set(q["ps"])
        return {"x0": self.x0, "obs0": self.obs0, "steps": self.steps, "low": [{"p": d, "q": d.lower()} for d in sorted(digs | {d.lower() for d in digs})],
                "dirs": [{"p": p, "q": p.split("/")[0]} for p in sorted(paths)]}


def rnd_entries(rng, paths, once=True):
    m = {}
    for p in paths:
        m.setdefault(rng.choice(DIGS), []).append(p)
    return m


def rnd_inv(rng):
    """Inventory data: consistent, or with some parts missing or unrelated."""
    d = {}
    if rng.random() < 0.15:
        return d
    if rng.random() < 0.9:
        d["type"] = "https://ocfl.io/%s/spec/#inventory" % rng.choice(["1.0", "1.1"])
    if rng.random() < 0.9:
        d["digestAlgorithm"] = rng.choice(["sha512", "sha256", "md5"])
    if rng.random() < 0.9:
        d["id"] = rng.choice(["o1", "", "ü"])
    if rng.random() < 0.3:
        d["contentDirectory"] = rng.choice(["data", "c", "v1"])
    n = rng.choice([0, 1, 1, 2, 3, 3, 9, 10, 12])
    w = rng.choice([0, 0, 0, 2, 3, 4])
    n = min(n, 9) if w == 2 else n
    vs = [("v%0" + str(w) + "d") % k if w else "v%d" % k for k in range(1, n + 1)]
    cd = d.get("contentDirectory", "content")
    man, vers = {}, {}
    cur = {}
    for v in vs:
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            k = rng.random()
            lp = rng.choice(LPS)
            if k < 0.25 and cur:
                cur.pop(rng.choice(sorted(cur)))
            else:
                g = rng.choice(DIGS)
                cur[lp] = g
                if g not in man or rng.random() < 0.3:
                    cp = "%s/%s/%s" % (v, cd, rng.choice(LPS))
                    if not any(cp in ps for ps in man.values()):
                        man.setdefault(g, []).append(cp)
        st = {}
        for p, g in cur.items():
            st.setdefault(g, []).append(p)
        b = vers[v] = {"state": st}
        if rng.random() < 0.8:
            b["created"] = "2020-01-01T00:00:00Z"
        if rng.random() < 0.6:
            b["message"] = "m%d" % rng.randint(0, 9)
        if rng.random() < 0.6:
            b["user"] = {}
            for k, val in (("name", "N"), ("address", "mailto:a")):
                if rng.random() < 0.7:
                    b["user"][k] = val
        if rng.random() < 0.05:
            del b["state"]
    for g in list(man):
        if not any(g in b.get("state", {}) for b in vers.values()) and rng.random() < 0.9:
            del man[g]
    keys = list(vers)
    rng.shuffle(keys)
    if rng.random() < 0.95 or vers:
        d["versions"] = {k: vers[k] for k in keys}
    if rng.random() < 0.95:
        d["manifest"] = man
    if vs and rng.random() < 0.95:
        d["head"] = vs[-1]
    if rng.random() < 0.5:
        ps = [p for q in man.values() for p in q]
        d["fixity"] = {}
        for a in rng.sample(ALGS, rng.randint(0, 2)):
            m = {}
            for p in ps:
                if rng.random() < 0.6:
                    m.setdefault("f%d" % rng.randint(0, 3), []).append(p)
            d["fixity"][a] = m
    return d


def rnd_op(rng, t):
    x = t.x
    vs = [y["v"] for y in x["vers"]["vs"]]
    last = max(vs, key=lambda v: nums(v)[0]) if vs else ""
    v = rng.choice([last] * 4 + vs) if vs else ""
    cps = [p for e in x["man"]["es"] for p in e["ps"]]
    digs = [e["d"] for e in x["man"]["es"]]
    k = rng.choice(["set", "meta", "manifest", "state", "user", "addversion", "addversion", "manadd", "addfile", "addfile", "addfile", "addfile", "addfile", "delete", "delete",
                    "delete", "delete", "fixtype", "fixdata", "normalise", "copy"] + (["init"] if rng.random() < 0.1 else []))
    if k in ("meta", "state", "user", "addfile", "delete") and not v:
        k = "addversion"
    o = {"op": k, "cp": ""}
    if k == "set":
        o["k"] = rng.choice(["type", "alg", "id", "cd"])
        o["raw"] = rng.choice({"type": ["1.0", "1.1", "2.0"], "alg": ["sha512", "md5"], "id": ["o2", "", "x y"], "cd": ["data", "content"]}[o["k"]])
        o["val"] = "=https://ocfl.io/%s/spec/#inventory" % o["raw"] if o["k"] == "type" else "=" + o["raw"]
    elif k == "meta":
        o.update(v=v, k=rng.choice(["created", "message", "name", "address"]), val="=" + rng.choice(["2021-01-01T00:00:00Z", "", "ü"]))
    elif k in ("state", "user"):
        o["v"] = v
    elif k == "addversion":
        o.update(v={"v": "", "n": 0, "w": 0}, pad=0, meta={"has": False, "created": "none", "message": "none", "user": {"has": False, "name": "none", "address": "none"}},
                 state={"has": False, "es": []}, asdict=rng.random() < 0.5)
        if rng.random() < 0.25:
            n = max([nums(y)[0] for y in vs] or [0]) + 1
            w = nums(vs[0])[1] if vs else rng.choice([0, 2, 3])
            nm = ("v%0" + str(w) + "d") % n if w else "v%d" % n
            if not w or nm[1] == "0":
                o["v"] = {"v": nm, "n": n, "w": w}
        if not o["v"]["v"] and rng.random() < 0.3:
            o["pad"] = rng.choice([2, 3, 4, 5, 1, 6])
        if rng.random() < 0.5:
            m = o["meta"] = {"has": True, "created": rng.choice(["=2022-02-02T00:00:00Z", "now"]), "message": rng.choice(["none", "=m", "="]),
                             "user": {"has": False, "name": rng.choice(["none", "=N"]), "address": rng.choice(["none", "=A"])}}
            m["user"]["has"] = m["user"]["name"] != "none" or m["user"]["address"] != "none"
        if rng.random() < 0.5:
            st = {}
            for p in rng.sample(LPS, rng.randint(0, 3)):
                if digs:
                    st.setdefault(rng.choice(digs), []).append(p)
            o["state"] = {"has": True, "es": es(st)}
    elif k == "manadd":
        # also paths that are there already
        o.update(d=rng.choice(DIGS), cp=rng.choice(cps + ["%s/content/%s" % (last or "v1", rng.choice(LPS))] * 2))
    elif k == "addfile":
        o.update(v=v, d=rng.choice(DIGS + digs), lp=rng.choice(LPS), dedupe=rng.random() < 0.5)
        if rng.random() < 0.3:
            o["cp"] = rng.choice(LPS + ["q/r"])
    elif k == "delete":
        ps = [p for y in x["vers"]["vs"] if y["v"] == v for e in y["state"]["es"] for p in e["ps"]]
        o.update(v=v, lp=rng.choice(ps + ps + ["nowhere"]))
    elif k == "fixtype":
        m = {}
        for p in cps:
            if rng.random() < 0.4:
                m.setdefault("f%d" % rng.randint(0, 3), []).append(p)
        o.update(a=rng.choice(ALGS), es=es(m), withmap=rng.random() < 0.5)
    elif k == "fixdata":
        if not x["fix"]["bs"] or not cps:
            return rnd_op(rng, t)
        o.update(a=rng.choice(x["fix"]["bs"])["a"], d="f%d" % rng.randint(0, 4), cp=rng.choice(cps))
    elif k == "normalise":
        o["alg"] = rng.choice(["sha512", "sha256", "md5"])
    return o


def gen(seed, i):
    return {"rng": "%s/inv/%d" % (seed, i), "desc": "inventory"}


def run(case):
    rng = random.Random(case["rng"])
    t = Trace(rnd_inv(rng), rng.choice(["data", "copy", "new"]))
    for _ in range(rng.randint(3, 14)):
        t.do(rnd_op(rng, t))
    r = t.result()
    r["_info"] = [{k: v for k, v in e.items() if k not in ("x", "obs")} for e in r["steps"]]
    return [r]


# --- every transition of the model ---
_trans = None


def transitions():
    """Transitions of InvModel as [x, operation], in a fixed order."""
    global _trans
    if _trans is None:
        r = tlc.run("InvModel", env={"DUMP": "1"})
        if "No error has been found" not in r["out"]:
            raise tlc.TlcError(r["out"][-2000:])
        s = {json.loads(line) for line in r["out"].split("\n") if line.startswith('"{')}
        _trans = sorted(s)
    return _trans


def gen_model(per=20):
    def g(seed, i):
        return {"part": transitions()[i * per:(i + 1) * per], "desc": "transitions"}
    return g


def model_size(per=20):
    return (len(transitions()) + per - 1) // per


def run_model(case):
    res = []
    for line in case["part"]:
        c = json.loads(line)
        o = c["o"]
        o.setdefault("cp", "")
        if o["op"] == "addversion":
            o["asdict"] = False
        if o["op"] == "fixtype":
            o["withmap"] = False
        if o["op"] == "normalise":
            o["alg"] = "sha512"
        t = Trace(data(c["x"]))
        t.do(o)
        r = t.result()
        r["_info"] = o
        res.append(r)
    return res
