"""BagIt bags as source and destination of versions (C21)."""
import os
import random

import bagtree
import cli
import fam_cli as fc
import fam_life as fl
import runner
import scan
from fam_life import opt, segs

PLAIN = {"id": ["info:o1", "http://example.org/o", "x y", "é", "a: b"], "message": ["first", "ünï ⅷ", "a: b:c", "x" * 120, "-"], "name": ["N1", "Ü. Person", "a b"],
         "email": ["x@example.org", "a+b@é.org"], "date": ["2021-01-02", "2000-02-29", "1999-12-31"]}


def plain(x):
    return x is not None and x == x.strip() and len(x.splitlines()) == 1 and all(ord(c) >= 32 and ord(c) != 127 for c in x)


class BTrace(fc.CTrace):
    """Life of an object fed from bags and extracted to bags."""

    def __init__(self, case, base):
        super().__init__(case, base)
        self.bags = []
        self.norm = None

    def meta(self, bad=0.05):
        rng = self.rng
        if rng.random() < 0.35:
            return dict(fl.NOMETA)
        m = super().meta(bad)
        if m["message"] == "" or m["message"] is not None and rng.random() < 0.7:
            m["message"] = rng.choice(PLAIN["message"])
        return m

    def bagtree(self):
        """A bag somewhere: (path, ast or None if none)."""
        rng = self.rng
        x = rng.random()
        if self.bags and x < 0.4:
            d = rng.choice(self.bags)
            t = scan.read_tree(d)
            mut = rng.random() < 0.4
        else:
            vs = self.versions()
            like = self.bytes_of_state(rng.choice(vs)) if vs and rng.random() < 0.5 else None
            m = self.srcmap(like)
            info = []
            for k in ("id", "message", "name", "email", "date"):
                if rng.random() < 0.65:
                    v = rng.choice(PLAIN[k])
                    if k == "id" and rng.random() < 0.8:
                        i = self.inv()
                        v = i["id"] if i and isinstance(i.get("id"), str) and plain(i["id"]) else v
                    info.append((bagtree.FIELDS[k], v))
            if rng.random() < 0.3:
                info.append(("Source-Organization", "Org: x"))
            rng.shuffle(info)
            extra = {rng.choice(["notes.txt", "tags/a.xml"]): b"tag file\n"} if rng.random() < 0.2 else None
            t = bagtree.make(m, info, rng, extra=extra)
            mut = rng.random() < 0.4
        did = ""
        if mut:
            for _ in range(rng.choice([1, 1, 1, 2])):
                did = bagtree.mutate(t, rng)
        if rng.random() < 0.04:
            did, t = "notabag", rng.choice([{"files": {"a.txt": b"x"}, "dirs": []}, {"files": {}, "dirs": []}, {"files": {"data/x": b"x"}, "dirs": []}])
        self.nsrc += 1
        d = os.path.join(self.work, "bag%d" % self.nsrc)
        if rng.random() < 0.02:
            did, t = "missing", {"files": {}, "dirs": []}
        else:
            scan.write_tree(d, t)
        for b in t["files"].values():
            self.intern.add(b)
        return d, bagtree.ast(t, self.intern), t, did

    def payload(self, t):
        return {p[5:]: b for p, b in t["files"].items() if p.startswith("data/")}

    # --- reading a bag through the library ---
    def op_bagsource(self):
        import ocfl
        d, b, t, did = self.bagtree()
        m = self.meta()
        i = self.rng.choice([None, None, "info:given"])
        got = {}

        def fn():
            vm = self.vm(m)
            vm.id = i
            r = ocfl.bag_as_source(d, vm)
            got.update(dir=os.path.relpath(r, d).split("/"), id=opt(vm.id if vm.id is None else str(vm.id)),
                       **{k: opt(getattr(vm, k) if getattr(vm, k) is None else str(getattr(vm, k))) for k in ("created", "message", "name", "address")})
        ev, r = self.record("bagsource", fn, bag=b, meta=fl.meta_ev(m), id=opt(i), did=did)
        ev["got"] = got
        ev["exc"] = ev.get("exc", "")
        ev["named"] = r[0] != "exc" or r[1] in ("BaggerError", "BagError", "BagValidationError")

    # --- create, update from a bag ---
    def op_bagin(self):
        rng = self.rng
        d, b, t, did = self.bagtree()
        pay = self.payload(t)
        s = self.settings()
        new = not os.path.lexists(self.objdir) or rng.random() < 0.1
        m = self.meta()
        e = dict(s, what="create" if new else "update", bag=b, srcs0=self.srcev(pay, "none"), metas=[fl.meta_ev(m)], meta=fl.meta_ev(m), did=did, alg=rng.choice(["sha512", "sha512", "sha256"]),
                 fixset=False, fixalgs=[])
        if rng.random() < 0.3:
            e["fixset"], e["fixalgs"] = self.fixargs()
            if not e["fixalgs"]:
                e["fixset"] = False
        src = self.srcev(pay, s["norm"])
        if new:
            i = b["info"]["id"]
            e.update(id=rng.choice(["", "", i[1:] if i != "none" else "info:x", "info:other"]), spec=rng.choice(["1.0", "1.1"]), cd="content", dry=rng.random() < 0.05, cdslash=False,
                     srcs=[src], dryvers=[], how="create", fixset=False, fixalgs=[])
            a = ["create", "--spec-version=" + e["spec"], "--digest=" + e["alg"]] + (["--id=" + e["id"]] if e["id"] else [])
            a += [] if e["dry"] else ["--objdir=" + self.objdir]
        else:
            e.update(id="", src=src, srcs=src, hassrc=True, abort=False, carry=False, nosrc=False, h="", dry=False)
            a = ["update", "--objdir=" + self.objdir, "--digest=" + e["alg"]] + ["--fixity=" + f for f in e["fixalgs"]]
        a += self.common(s) + self.metaargs(m) + ["--srcbag=" + d + rng.choice(["", "", "/"])]

        def fn():
            return self.tool(a)
        if e["dry"]:
            import json
            lookup = {scan.hexes(x)[e["alg"]]: self.intern.add(x) for x in pay.values()}
        ev, r = self.record("bagin", fn, **e)
        if ev["res"] == "ok":
            if e["dry"]:
                import ocfl
                inv = ocfl.Inventory(json.loads(r[1].out[r[1].out.index("\n") + 1:]))
                for v in inv.versions():
                    ev["dryvers"].append([{"p": segs(p), "c": lookup.get(h.lower(), "?")} for h, ps in v.state.items() for p in ps])
            else:
                ev["lib"] = self.lib(self.lax)

    # --- extraction to a bag ---
    def op_bagout(self):
        import ocfl
        rng = self.rng
        ver = self.askver()
        k, d = self.destination(["absent"] * 6 + ["empty"] * 3 + ["full", "file", "noparent", "emptysub"])
        before, _ = self.out(d)
        setdate = rng.random() < 0.4
        inv = self.inv() or {}
        tool = rng.random() < 0.5

        def fn():
            if tool:
                self.tool(["extract", "--objdir=" + self.objdir, "--objver=" + ver, "--dstbag=" + d] + ["--set-bagging-date"] * setdate
                          + self.common({"fwd": True, "dedupe": True, "norm": "none"}))
            else:
                m = self.handle(self.settings()).extract(self.objdir, ver, d)
                ocfl.bag_extracted_version(d, m, set_bagging_date=setdate)
        ev, r = self.record("bagout", fn, allowed=d, ver=ver, dst=k, before=before, setdate=setdate)
        ev["out"], _ = self.out(d)
        ev["plain"], ev["bag"] = [], {}
        if ev["res"] == "ok":
            t = scan.read_tree(d)
            for b in t["files"].values():
                self.intern.add(b)
            ev["bag"] = bagtree.ast(t, self.intern)
            try:
                v = inv["versions"][inv["head"] if ver == "head" else ver]
                u = v.get("user") or {}
                vals = {"id": inv.get("id"), "message": v.get("message"), "name": u.get("name"), "email": u.get("address"), "created": v.get("created")}
                ev["plain"] = sorted(x for x, y in vals.items() if y is None or y == "" or plain(y))
            except Exception:  # damaged
                pass
            self.bags.append(d)

    def go(self):
        rng = self.rng
        if self.pt == 0 and rng.random() < 0.6:
            self.op_bagin()
        ops = ["bagin"] * 5 + ["bagout"] * 4 + ["bagsource"] * 2 + ["update", "read", "validate", "damage"]
        for _ in range(self.case["len"]):
            o = rng.choice(ops)
            if o != "bagsource" and not os.path.lexists(self.objdir):
                o = "bagin"
            getattr(self, "op_" + o)()
        return {"trees": self.trees, "start": self.start, "steps": self.steps}


def gen(seed, i):
    return dict(fl.gen("cli", length=9, bad=0.05, initial=0.6, bags=True)(seed, i), desc="bag")


def run(case):
    with runner.Dir() as base:
        r = BTrace(case, base).go()
    r["_info"] = fl.brief(r["steps"])
    return [r]
