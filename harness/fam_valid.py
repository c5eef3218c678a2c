"""Validator families: C07 C08 C09 C10 C11."""
import copy
import json
import os
import random
import re

import invmut
import objgen
import scan
import sut
from runner import Dir, pmap


# ---------------------------------------------------------------- C07
def content_paths(o):
    return sorted(o["content"])


def c07_mutations(rng, o):
    """Random damage; returns (description, tree)."""
    kind = rng.choice(["none", "flip", "flip", "trunc", "trunc1", "extend", "empty", "delete", "swap", "rename", "renamecase", "add", "addcopy", "move_version",
                       "inv_ws", "inv_edit", "inv_byte", "inv_swap", "side_digest", "side_digest", "side_name", "side_empty", "side_form", "side_alg", "side_other",
                       "side_delete", "man_wrong_prior", "man_wrong_root", "fix_wrong", "fix_wrong", "two", "replace_other", "inv_delete"])
    return kind


def flipbyte(b, i):
    return b[:i] + bytes([b[i] ^ 0x41]) + b[i + 1:]


def fix_entries(inv):
    return [(a, d, p) for a in inv.get("fixity", {}) for d in inv["fixity"][a] for p in inv["fixity"][a][d]]


def damage(rng, d, kind):
    o = objgen.obj(d)
    cps = content_paths(o)
    desc = kind
    if kind == "man_wrong_prior":
        # an earlier inventory of the other algorithm with a digest which the content does not have
        vs = [v for v in o["vinv"] if o["vinv"][v]["manifest"]]
        if not vs:
            return None
        v = rng.choice(vs)
        inv = o["vinv"][v]
        dg = rng.choice(sorted(inv["manifest"]))
        nd = ("0" if dg[0] != "0" else "1") + dg[1:]
        invmut.rekey(inv["manifest"], dg, nd)
        for b in inv["versions"].values():
            if dg in b["state"]:
                invmut.rekey(b["state"], dg, nd)
        desc += ":" + v
    if kind == "man_wrong_root":
        if not o["root"]["manifest"]:
            return None
        dg = rng.choice(sorted(o["root"]["manifest"]))
        i = rng.randrange(len(dg))
        nd = dg[:i] + ("0" if dg[i] != "0" else "1") + dg[i + 1:]
        for inv in [o["root"]] + list(o["vinv"].values()):
            if dg in inv["manifest"]:
                invmut.rekey(inv["manifest"], dg, nd)
            for b in inv["versions"].values():
                if dg in b["state"]:
                    invmut.rekey(b["state"], dg, nd)
    if kind == "fix_wrong":
        invs = [("root", o["root"])] + sorted(o["vinv"].items())
        c = [(w, inv) for w, inv in invs if fix_entries(inv)]
        if not c:
            return None
        w, inv = rng.choice(c)
        a, dg, p = rng.choice(fix_entries(inv))
        if rng.random() < 0.5:
            i = rng.randrange(len(dg))
            nd = dg[:i] + ("0" if dg[i].lower() != "0" else "1") + dg[i + 1:]
            invmut.rekey(inv["fixity"][a], dg, nd)
        else:  # one path listed under a digest of other bytes
            inv["fixity"][a][dg].remove(p)
            if not inv["fixity"][a][dg]:
                del inv["fixity"][a][dg]
            od = scan.hexes(b"other")[a]
            inv["fixity"][a].setdefault(od, []).append(p)
        desc += ":%s:%s" % (w, a)
    t = objgen.emit(o)
    f = t["files"]
    steps = {"two": rng.choices(["flip", "extend", "delete", "swap", "add", "side_digest", "inv_edit", "rename"], k=2)}.get(kind, [kind])
    invs = sorted(p for p in f if p.endswith("inventory.json") and p.count("/") <= 1 and (p.count("/") == 0 or p.split("/")[0] in o["vdirs"]))
    sides = sorted(p for p in f if "inventory.json." in p and p.count("/") <= 1 and (p.count("/") == 0 or p.split("/")[0] in o["vdirs"]) and p not in o["content"])
    for k in steps:
        cps = [p for p in cps if p in f]
        nz = [p for p in cps if f[p]]
        if k == "flip":
            if not nz:
                return None
            p = rng.choice(nz)
            i = rng.choice([0, len(f[p]) - 1, rng.randrange(len(f[p]))])
            f[p] = flipbyte(f[p], i)
            desc += " %s@%d" % (p, i)
        elif k in ("trunc", "trunc1", "empty"):
            if not nz:
                return None
            p = rng.choice(nz)
            n = {"trunc": len(f[p]) // 2, "trunc1": len(f[p]) - 1, "empty": 0}[k]
            f[p] = f[p][:n]
        elif k == "extend":
            if not cps:
                return None
            p = rng.choice(cps)
            f[p] = f[p] + rng.choice([b"\n", b"\0", b"x" * 70000])
        elif k == "replace_other":
            if not cps:
                return None
            p = rng.choice(cps)
            f[p] = b"replaced %f" % rng.random()
        elif k == "delete":
            if not cps:
                return None
            del f[rng.choice(cps)]
        elif k == "swap":
            c = [(p, q) for p in cps for q in cps if p < q and f[p] != f[q]]
            if not c:
                return None
            p, q = rng.choice(c)
            f[p], f[q] = f[q], f[p]
        elif k in ("rename", "renamecase", "move_version"):
            if not cps:
                return None
            p = rng.choice(cps)
            if k == "rename":
                q = rng.choice([p + "x", p.rsplit("/", 1)[0] + "/renamed", "/".join(p.split("/")[:2]) + "/sub/dir/f"])
            elif k == "renamecase":
                q = "/".join(p.split("/")[:2] + [p.split("/", 2)[2].swapcase()])
            else:
                q = rng.choice(o["vdirs"]) + p[p.index("/"):]
            if q in f or q == p:
                return None
            f[q] = f.pop(p)
        elif k in ("add", "addcopy"):
            cd = d["cd"]
            q = rng.choice(o["vdirs"]) + "/" + cd + "/" + rng.choice(["added", "sub/added", "inventory.json", "inventory.json.sha512", ".hidden", "x/y/z/added", "added "])
            if q in f:
                return None
            f[q] = b"added" if k == "add" or not cps else f[rng.choice(cps)]
        elif k in ("inv_ws", "inv_edit", "inv_byte", "inv_swap", "inv_delete"):
            p = rng.choice(invs)
            if k == "inv_ws":
                f[p] = f[p].replace(b": ", b":  ", 1) if rng.random() < 0.5 else f[p] + b" "
            elif k == "inv_edit":
                x = json.loads(f[p])
                v = rng.choice(sorted(x["versions"]))
                x["versions"][v]["message"] = "tampered"
                f[p] = objgen.dump(x)
            elif k == "inv_byte":
                i = rng.randrange(len(f[p]))
                f[p] = flipbyte(f[p], i)
            elif k == "inv_swap":
                q = rng.choice(invs)
                if f[p] == f[q]:
                    return None
                f[p], f[q] = f[q], f[p]
            else:
                del f[p]
            desc += " " + p
        elif k.startswith("side_"):
            p = rng.choice(sides)
            dg, _, rest = f[p].partition(b" ") if b" " in f[p] else f[p].partition(b"\t")
            dg = f[p].split()[0]
            alg = p.rsplit(".", 1)[1]
            if k == "side_digest":
                i = rng.choice([0, len(dg) - 1, rng.randrange(len(dg))])
                c = b"0" if dg[i:i + 1] != b"0" else b"1"
                f[p] = dg[:i] + c + dg[i + 1:] + b" inventory.json\n"
            elif k == "side_name":
                f[p] = dg + rng.choice([b" inventory.jsn\n", b" v1/inventory.json\n", b" ./inventory.json\n", b" inventory.json.sha512\n", b" Inventory.json\n", b"\n"])
            elif k == "side_empty":
                f[p] = b""
            elif k == "side_form":
                f[p] = rng.choice([b"inventory.json " + dg + b"\n", dg + b"inventory.json\n", b"\xff\xfe " + dg, dg + b" * inventory.json\n", b"\n" + dg + b" inventory.json\n",
                                   dg + b" inventory.json more\n", b"garbage\n"])
            elif k == "side_alg":
                o2 = {"sha512": "sha256", "sha256": "sha512"}[alg]
                inv = f.get(p[:-len(alg) - 1])
                if inv is None:
                    return None
                f[p] = objgen.sidecar(inv, o2)
            elif k == "side_other":
                q = rng.choice(invs)
                if f[q] == f.get(p[:-len(alg) - 1]):
                    return None
                f[p] = objgen.sidecar(f[q], alg)
            elif k == "side_delete":
                del f[p]
            desc += " " + p
    return desc, scan.norm_tree(t)


KINDS7 = ["none", "none", "flip", "flip", "trunc", "trunc1", "extend", "empty", "delete", "swap", "rename", "renamecase", "add", "addcopy", "move_version",
          "inv_ws", "inv_edit", "inv_byte", "inv_swap", "inv_delete", "side_digest", "side_digest", "side_name", "side_empty", "side_form", "side_alg",
          "side_other", "side_delete", "man_wrong_prior", "man_wrong_prior", "man_wrong_root", "fix_wrong", "fix_wrong", "fix_wrong", "two", "two", "replace_other"]


def gen_c07(seed, i):
    rng = random.Random("c07-%s-%d" % (seed, i))
    kind = KINDS7[i % len(KINDS7)]
    for _ in range(60):
        d = objgen.gen(rng, big=(i % 17 == 0))
        r = damage(rng, d, kind)
        if r:
            return {"desc": r[0], "tree": r[1], "lax": False, "dig": i % 11 != 5}
    return None


# ---------------------------------------------------------------- C09
def c09_mutate(rng, d):
    """Earlier inventories that are valid by themselves but (maybe) contradict the root."""
    if rng.random() < 0.03:     # an earlier inventory without content
        k = rng.choice(["cd_bare", "cd_bare", "alg", "spec_up", "id"])
        d = objgen.gen(rng, nver=rng.choice([2, 3]), empty=rng.choice([1, 1, 2]))
        d["skip"] = []
    else:
        k = None
    o = objgen.obj(d)
    if not o["vinv"]:
        return None
    v = rng.choice(sorted(o["vinv"])) if not k else sorted(o["vinv"])[0]
    inv = o["vinv"][v]
    root = o["root"]
    k = k or rng.choice(["none", "id", "lpath_rename", "lpath_add", "lpath_drop", "content_swap", "content_other", "cd", "cd_all", "more_versions", "less_versions",
                    "same_versions", "drop_content", "spec_up", "spec_down", "alg", "meta", "meta", "absent", "extra_copy", "extra_root_copy", "root_lpath", "root_content",
                    "digest_case", "lpath_swap", "first_only", "pad", "order", "cd_set", "root_drop_copy", "reloc"])
    some = [w for w in sorted(inv["versions"]) if inv["versions"][w]["state"]]
    w = rng.choice(some) if some else None
    st = inv["versions"][w]["state"] if w else None

    def prune(x):
        used = set(g for b in x["versions"].values() for g in b["state"])
        for g in list(x["manifest"]):
            if g not in used:
                del x["manifest"][g]
        if "fixity" in x:
            ps = set(p for g in x["manifest"].values() for p in g)
            for a in x["fixity"]:
                x["fixity"][a] = {g: [p for p in li if p in ps] for g, li in x["fixity"][a].items() if any(p in ps for p in li)}
    if k == "id":
        inv["id"] = rng.choice(["other", inv["id"] + "x", inv["id"].upper() + "_", inv["id"] + " "])
    elif k in ("lpath_rename", "lpath_add", "lpath_drop", "lpath_swap", "content_swap", "content_other", "order", "reloc"):
        if not st:
            return None
        if k == "lpath_rename":
            g = rng.choice(sorted(st))
            st[g][0] = "renamed_%d" % rng.randrange(99)
        elif k == "lpath_add":
            st[rng.choice(sorted(st))].append("added_%d" % rng.randrange(99))
        elif k == "lpath_drop":
            g = rng.choice(sorted(st))
            st[g].pop()
            if not st[g]:
                del st[g]
            prune(inv)
        elif k in ("content_swap", "lpath_swap"):
            if len(st) < 2:
                return None
            a, b = rng.sample(sorted(st), 2)
            st[a], st[b] = st[b], st[a]
        elif k == "content_other":
            g = rng.choice(sorted(st))
            others = [x for x in inv["manifest"] if x != g]
            if not others:
                return None
            p = st[g].pop()
            if not st[g]:
                del st[g]
            st.setdefault(rng.choice(others), []).append(p)
            prune(inv)
        elif k == "order":
            b = inv["versions"][w]
            b["state"] = {g: list(reversed(st[g])) for g in reversed(sorted(st))}
            inv["manifest"] = {g: inv["manifest"][g] for g in reversed(sorted(inv["manifest"]))}
        elif k == "reloc":
            g = rng.choice(sorted(inv["manifest"]))
            p = inv["manifest"][g][0]
            inv["manifest"][g][0] = p + "_elsewhere"
            for a in inv.get("fixity", {}):
                for e in inv["fixity"][a]:
                    inv["fixity"][a][e] = [p + "_elsewhere" if q == p else q for q in inv["fixity"][a][e]]
    elif k in ("cd", "cd_all"):
        new = "othercd"
        for x in ([inv] if k == "cd" else list(o["vinv"].values())):
            old = x.get("contentDirectory", "content")
            x["contentDirectory"] = new

            def f(p):
                a, b, c = p.split("/", 2)
                return "/".join([a, new, c])
            x["manifest"] = {g: [f(p) for p in li] for g, li in x["manifest"].items()}
            for a in x.get("fixity", {}):
                x["fixity"][a] = {g: [f(p) for p in li] for g, li in x["fixity"][a].items()}
    elif k == "cd_bare":
        inv["contentDirectory"] = rng.choice(["othercd", "Content", "contents", "data"])
    elif k == "cd_set":
        if "contentDirectory" in inv:
            return None
        for x in [root] + list(o["vinv"].values()):
            x["contentDirectory"] = "content"
    elif k == "more_versions":
        n = len(inv["versions"]) + 1
        h = inv["head"]
        nh = "v%0*d" % (len(h) - 1, n) if h[1] == "0" else "v%d" % n
        inv["versions"][nh] = copy.deepcopy(inv["versions"][h])
        inv["head"] = nh
    elif k == "same_versions":
        o["vinv"][v] = copy.deepcopy(root)
    elif k == "less_versions":
        # the root inventory knows less versions than the earlier one
        keep = sorted(root["versions"], key=lambda x: int(x[1:]))[:-1]
        return None if not keep else None
    elif k == "drop_content":
        # a later earlier-version inventory no longer lists a copy
        g = [x for x in inv["manifest"] if len(inv["manifest"][x]) > 1]
        if not g:
            return None
        g = rng.choice(sorted(g))
        p = inv["manifest"][g].pop(rng.randrange(len(inv["manifest"][g])))
        for a in inv.get("fixity", {}):
            for e in list(inv["fixity"][a]):
                inv["fixity"][a][e] = [q for q in inv["fixity"][a][e] if q != p]
    elif k == "root_drop_copy":
        g = [x for x in root["manifest"] if len(root["manifest"][x]) > 1]
        if not g:
            return None
        g = rng.choice(sorted(g))
        p = root["manifest"][g].pop(rng.randrange(len(root["manifest"][g])))
        for a in root.get("fixity", {}):
            for e in list(root["fixity"][a]):
                root["fixity"][a][e] = [q for q in root["fixity"][a][e] if q != p]
        if rng.random() < 0.7:
            o["content"].pop(p, None)
    elif k == "spec_up":
        inv["type"] = "https://ocfl.io/1.1/spec/#inventory"
    elif k == "spec_down":
        inv["type"] = "https://ocfl.io/1.0/spec/#inventory"
    elif k == "alg":
        # same inventory in the other algorithm: never an error
        n = [objgen.vdir(i + 1, d["pad"]) for i in range(d["nv"])].index(v) + 1
        d2 = copy.deepcopy(d)
        d2["algs"][n - 1] = {"sha512": "sha256", "sha256": "sha512"}[d["algs"][n - 1]]
        o["vinv"][v] = objgen.inventory(d2, n)
    elif k == "meta":
        b = inv["versions"][rng.choice(sorted(inv["versions"]))]
        b["message"] = "another message"
        b["created"] = "1999-01-01T00:00:00Z"
        b["user"] = {"name": "Else"}
    elif k == "absent":
        del o["vinv"][v]
    elif k == "extra_copy":
        # earlier inventory lists content that the root does not
        if not inv["manifest"]:
            return None
        g = rng.choice(sorted(inv["manifest"]))
        inv["manifest"][g].append("%s/%s/ghost" % (v, d["cd"]))
    elif k == "extra_root_copy":
        if not root["manifest"]:
            return None
        g = rng.choice(sorted(root["manifest"]))
        p = root["manifest"][g][0]
        q = "%s/%s/another" % (rng.choice(o["vdirs"]), d["cd"])
        root["manifest"][g].append(q)
        o["content"][q] = o["content"][p]
    elif k in ("root_lpath", "root_content"):
        b = root["versions"][v]["state"]
        if not b:
            return None
        g = rng.choice(sorted(b))
        if k == "root_lpath":
            b[g][-1] = "root_only"
        else:
            oth = [x for x in root["manifest"] if x != g]
            if not oth:
                return None
            p = b[g].pop()
            if not b[g]:
                del b[g]
            b.setdefault(rng.choice(sorted(oth)), []).append(p)
            prune(root)
            for x in list(o["content"]):
                if not any(x in li for li in root["manifest"].values()):
                    del o["content"][x]
    elif k == "digest_case":
        def up(x, f):
            x["manifest"] = {f(g): li for g, li in x["manifest"].items()}
            for b in x["versions"].values():
                b["state"] = {f(g): li for g, li in b["state"].items()}
        up(inv, str.upper if not d["upper"] else str.lower)
    elif k == "pad":
        n = len(v) - 1
        old = list(inv["versions"])
        f = (lambda s: "v%d" % int(s[1:])) if v[1] == "0" else (lambda s: "v%03d" % int(s[1:]))
        for x in old:
            invmut.rename_version(inv, x, f(x))
    elif k == "first_only":
        # other change in the first version, same inventories otherwise
        inv["versions"][sorted(inv["versions"])[0]]["state"] = {}
        prune(inv)
    return "%s:%s" % (k, v), objgen.emit(o)


def gen_c09(seed, i):
    rng = random.Random("c09-%s-%d" % (seed, i))
    for _ in range(60):
        d = objgen.gen(rng, nver=rng.choice([2, 3, 3, 4, 5]))
        r = c09_mutate(rng, d)
        if r:
            return {"desc": r[0], "tree": r[1], "lax": False, "dig": True}
    return None


# ---------------------------------------------------------------- C10
NAMES = ["x", "README", "v", "v1x", "1", "V1", "content", "ocfl_layout.json", "inventory.json.bak", "inventory.jsonx", "inventory.json.md5", ".DS_Store", "0", "00=x",
         "vv1", "v-1", "v 1", "inventory", "log", "extension", "Logs"]


def c10_mutate(rng, d):
    o = objgen.obj(d)
    t = objgen.emit(o)
    f, dirs = t["files"], t["dirs"]
    spec = d["specs"][-1]
    decl = "0=ocfl_object_" + spec
    other = "0=ocfl_object_" + ("1.1" if spec == "1.0" else "1.0")
    alg = d["algs"][-1]
    cd = d["cd"]
    v = rng.choice(o["vdirs"])
    k = rng.choice(["none", "decl_del", "decl_other", "decl_two", "decl_two_bad", "decl_unknown", "decl_extra_unknown", "decl_content", "decl_empty", "decl_dir", "decl_many",
                    "decl_name", "inv_del", "side_del", "side_wrong_name", "side_extra", "root_file", "root_file", "root_dir", "root_dir", "vdir_extra", "vdir_missing", "vdir_file",
                    "vfile", "vfile", "vfile_side", "vdir_dir_ok", "empty_dir", "empty_dir_deep", "ext_file", "ext_ok", "logs_ok", "logs_file", "ext_name_file", "cd_file", "inv_dir",
                    "side_dir", "vinv_del", "vside_del", "vinv_all_del", "vdir_empty_extra", "vdir_pad_extra", "headinv_differs", "two", "inv_garbage", "vinv_garbage", "empty_content_ok", "logs_ok", "vdir_dir_ok",
                    "inv_notobj", "file_as_vdir", "unlisted_vdir_with_inventory", "headinv_del", "vside_dir", "swap_dir", "swap_file"])
    ks = [k] if k != "two" else rng.sample(["root_file", "decl_two", "vfile", "empty_dir", "ext_file", "side_del", "vdir_extra", "decl_content", "root_dir"], 2)
    for k1 in ks:
        if k1 == "decl_del":
            del f[decl]
        elif k1 == "decl_other":
            del f[decl]
            f[other] = other[2:].encode() + b"\n"
        elif k1 == "decl_two":
            f[other] = other[2:].encode() + b"\n"
        elif k1 == "decl_two_bad":
            f[other] = b"wrong\n"
        elif k1 == "decl_unknown":
            del f[decl]
            f["0=ocfl_object_" + rng.choice(["2.0", "1.2", "1", "", "1.10", "draft"])] = b"x\n"
        elif k1 == "decl_extra_unknown":
            n = rng.choice(["ocfl_object_2.0", "ocfl_1.0", "foo", "ocfl_1.1", "", "ocfl_object_1.0x"])
            f["0=" + n] = n.encode() + b"\n"
        elif k1 == "decl_content":
            f[decl] = rng.choice([b"ocfl_object_9.9\n", b"ocfl_1.0\n", b"x", other[2:].encode() + b"\n", decl.encode() + b"\n", decl[2:].encode() + b"\nmore\n", b"\xff\xfe\n",
                                  decl[2:].encode() + b"x\n", decl[2:-1].encode() + b"\n"])
        elif k1 == "decl_empty":
            f[decl] = b""
        elif k1 == "decl_dir":
            del f[decl]
            dirs.append(decl)
        elif k1 == "decl_many":
            for i in range(rng.choice([3, 11, 15])):
                f["0=x%d" % i] = b"x%d\n" % i
        elif k1 == "decl_name":
            f[decl + rng.choice([" ", "x", ".0", "~"])] = f.pop(decl)
        elif k1 == "inv_del":
            del f["inventory.json"]
        elif k1 == "side_del":
            f.pop("inventory.json." + alg, None)
        elif k1 == "side_wrong_name":
            f["inventory.json." + rng.choice(["md5", "sha384", "SHA512", {"sha512": "sha256", "sha256": "sha512"}[alg], "txt"])] = f.pop("inventory.json." + alg)
        elif k1 == "side_extra":
            a2 = {"sha512": "sha256", "sha256": "sha512"}[alg]
            f["inventory.json." + a2] = objgen.sidecar(f["inventory.json"], a2)
        elif k1 == "root_file":
            f[rng.choice(NAMES)] = b"x"
        elif k1 == "root_dir":
            n = rng.choice(NAMES)
            if n not in f:
                dirs.append(n)
                if rng.random() < 0.5:
                    f[n + "/y"] = b"y"
        elif k1 == "logs_file":
            f[rng.choice(["logs", "extensions"])] = b"x"
        elif k1 == "vdir_extra":
            n = "v%d" % (d["nv"] + rng.choice([1, 2, 10])) if not d["pad"] else objgen.vdir(d["nv"] + 1, d["pad"])
            f[n + "/" + cd + "/f"] = b"x"
        elif k1 == "vdir_empty_extra":
            dirs.append(rng.choice(["v0", "v99", "v00"]))
        elif k1 == "vdir_pad_extra":
            n = "v%d" % 1 if d["pad"] else "v01"
            dirs.append(n)
        elif k1 == "unlisted_vdir_with_inventory":
            n = objgen.vdir(d["nv"] + 1, d["pad"])
            f[n + "/inventory.json"] = f["inventory.json"]
        elif k1 == "vdir_missing":
            c = [w for w in o["vdirs"] if not any(p.startswith(w + "/") for p in o["content"])]
            w = rng.choice(c or [v])
            for p in list(f):
                if p.startswith(w + "/"):
                    del f[p]
            dirs = [x for x in dirs if x != w and not x.startswith(w + "/")]
        elif k1 == "vdir_file":
            w = v
            for p in list(f):
                if p.startswith(w + "/"):
                    del f[p]
            dirs = [x for x in dirs if x != w and not x.startswith(w + "/")]
            f[w] = b"file"
        elif k1 == "file_as_vdir":
            f["v99"] = b"x"
        elif k1 == "vfile":
            n = rng.choice(NAMES + ["v1", cd + "x", "README.txt", "0=ocfl_object_1.0", "logs"])
            if v + "/" + n not in f and v + "/" + n not in dirs and not any(p.startswith(v + "/" + n + "/") for p in f):
                f[v + "/" + n] = b"x"
        elif k1 == "vfile_side":
            f[v + "/inventory.json." + rng.choice(["md5", "sha1", "bak", {"sha512": "sha256", "sha256": "sha512"}[alg]])] = b"x"
        elif k1 == "vdir_dir_ok":
            n = rng.choice(["extra", "metadata", "contentx", "logs", "v2"])
            if n != cd:
                f[v + "/" + n + "/f"] = b"x"
                if rng.random() < 0.5:
                    dirs.append(v + "/" + n + "/empty")
        elif k1 == "empty_dir":
            dirs.append(v + "/" + cd + "/emptydir")
        elif k1 == "empty_dir_deep":
            dirs.append(v + "/" + cd + "/e1/e2/e3")
        elif k1 == "empty_content_ok":
            dirs.append(v + "/" + cd)
        elif k1 == "ext_file":
            f["extensions/" + rng.choice(["config.json", "x", "0001-digest-algorithms"])] = b"x"
        elif k1 == "ext_ok":
            f["extensions/%s/config.json" % rng.choice(["0001-digest-algorithms", "unregistered", "0005-mutable-head"])] = b"{}"
            dirs.append("extensions/another/sub/empty")
        elif k1 == "ext_name_file":
            f["extensions"] = b"x"
        elif k1 == "logs_ok":
            dirs.append("logs")
            if rng.random() < 0.6:
                f["logs/" + rng.choice(["log.txt", "deep/er/log", "inventory.json", "v1/x"])] = b"log"
        elif k1 == "cd_file":
            w = [x for x in o["vdirs"] if not any(p.startswith(x + "/" + cd + "/") for p in f) and x + "/" + cd not in dirs]
            if not w:
                return None
            f[rng.choice(w) + "/" + cd] = b"x"
        elif k1 == "inv_dir":
            del f["inventory.json"]
            dirs.append("inventory.json")
        elif k1 == "side_dir":
            f.pop("inventory.json." + alg, None)
            dirs.append("inventory.json." + alg)
        elif k1 in ("vside_dir", "swap_dir"):
            c = sorted(p for p in f if k1 == "swap_dir" or re.fullmatch(r"v\d+/inventory\.json\.\w+", p))
            if not c:
                return None
            p = rng.choice(c)
            del f[p]
            dirs.append(p)
            if rng.random() < 0.4:
                f[p + "/" + rng.choice(["f", "inventory.json", "a/b"])] = b"x"
        elif k1 == "swap_file":
            alld = scan.norm_tree({"files": f, "dirs": dirs})["dirs"]
            w = rng.choice(alld)
            for p in [p for p in f if p.startswith(w + "/")]:
                del f[p]
            dirs = [x for x in dirs if x != w and not x.startswith(w + "/")]
            f[w] = b"x"
        elif k1 in ("vinv_del", "vside_del"):
            c = [w for w in o["vinv"]]
            if not c:
                return None
            w = rng.choice(sorted(c))
            for p in list(f):
                if p.startswith(w + "/inventory.json") and (k1 == "vinv_del" or p != w + "/inventory.json") and p.count("/") == 1:
                    del f[p]
        elif k1 == "vinv_all_del":
            for p in list(f):
                if p.count("/") == 1 and p.split("/")[1].startswith("inventory.json") and p.split("/")[0] in o["vdirs"]:
                    del f[p]
        elif k1 == "headinv_del":
            for p in list(f):
                if p.count("/") == 1 and p.startswith(o["headv"] + "/inventory.json"):
                    del f[p]
        elif k1 == "headinv_differs":
            p = o["headv"] + "/inventory.json"
            if p not in f:
                return None
            f[p] = f[p].replace(b"{", b"{ ", 1)
            f[p + "." + alg] = objgen.sidecar(f[p], alg)
        elif k1 == "inv_garbage":
            f["inventory.json"] = rng.choice([b"", b"{", b"null x", b"\xff\xfe{}", b"[1,", b"{'a':1}"])
            f["inventory.json." + alg] = objgen.sidecar(f["inventory.json"], alg)
        elif k1 == "inv_notobj":
            f["inventory.json"] = rng.choice([b"[]", b"null", b"7", b"\"x\"", b"true", b"[{}]"])
            f["inventory.json." + alg] = objgen.sidecar(f["inventory.json"], alg)
        elif k1 == "vinv_garbage":
            c = sorted(o["vinv"])
            if not c:
                return None
            w = rng.choice(c)
            b = rng.choice([b"", b"{", b"[]", b"\xff{}", b"null", b"{}"])
            f[w + "/inventory.json"] = b
            for p in list(f):
                if p.startswith(w + "/inventory.json.") and p.count("/") == 1:
                    f[p] = objgen.sidecar(b, p.rsplit(".", 1)[1])
    # a path cannot be both file and directory
    t = {"files": f, "dirs": dirs}
    alld = set(scan.norm_tree(t)["dirs"])
    if any(p in alld for p in f):
        return None
    return "+".join(ks), scan.norm_tree(t)


def gen_c10(seed, i):
    rng = random.Random("c10-%s-%d" % (seed, i))
    for _ in range(60):
        d = objgen.gen(rng)
        r = c10_mutate(rng, d)
        if r:
            return {"desc": r[0], "tree": r[1], "lax": False, "dig": i % 5 != 3}
    return None


# ---------------------------------------------------------------- running
def run_tree(c):
    """Validate one tree with the code; returns the judge case (without id)."""
    with Dir() as d:
        root = os.path.join(d, "obj")
        scan.write_tree(root, c["tree"])
        outs = [sut.validate_object(root, check_digests=c["dig"], lax_digests=c["lax"])]
        outs.append(sut.object_validate(root, lax=c["lax"], dig=c["dig"]))
        after = sut.snapshot(root)
        if after["files"] != c["tree"]["files"] or after["dirs"] != c["tree"]["dirs"]:
            outs.append({"how": "validate", "grp": "", "v": "wrote", "codes": []})
    return {"kind": "obj", "tree": scan.ast(c["tree"]), "lax": c["lax"], "dig": c["dig"], "dflt": "1.1", "forced": "", "outs": outs}


# ---------------------------------------------------------------- C08
def gen_c08(seed, i):
    rng = random.Random("c08-%s-%d" % (seed, i))
    d = objgen.gen(rng)
    names = sorted(invmut.MUT)
    k = 0 if i % 29 == 0 else (2 if i % 4 == 3 else 1)
    if k == 1:
        nm = names[(i // 2) % len(names)]
        for _ in range(60):
            done, inv = invmut.mutate(rng, objgen.inventory(d, d["nv"]), 1, [nm])
            if done:
                break
            d = objgen.gen(rng)
    else:
        done, inv = invmut.mutate(rng, objgen.inventory(d, d["nv"]), k)
    if rng.random() < 0.5:
        inv = objgen.shuffled(rng, inv)
    return {"desc": "+".join(done) or "none", "d": d, "inv": inv, "lax": i % 7 == 6, "forced": ""}


def run_inv(c):
    """Inventory by itself (API, file) and within an otherwise matching object."""
    d, inv = c["d"], c["inv"]
    o = objgen.obj(d)
    o["root"] = inv
    o["headinv"] = True
    o["vinv"] = {}
    tree = objgen.emit(o)
    intern = scan.Intern()
    b = objgen.dump(inv)
    intern.add(b)
    for x in d["content"].values():
        intern.add(x)
    res = []
    with Dir() as dd:
        p = os.path.join(dd, "inventory.json")
        with open(p, "wb") as fh:
            fh.write(b)
        outs = [sut.inv_api(copy.deepcopy(inv), lax=c["lax"]), sut.inv_file(p, lax=c["lax"])]
        res.append({"kind": "inv", "j": scan.jval(inv, intern), "lax": c["lax"], "dig": True, "forced": "", "dflt": "1.1", "outs": outs})
        f = random.Random(c["desc"] + str(len(b))).choice(["1.0", "1.1"])
        outs = [sut.inv_api(copy.deepcopy(inv), how="api-forced", lax=c["lax"], forced=f), sut.inv_file(p, how="standalone-forced", lax=c["lax"], forced=f)]
        res.append({"kind": "inv", "j": scan.jval(inv, intern), "lax": c["lax"], "dig": True, "forced": f, "dflt": "1.1", "outs": outs})
        root = os.path.join(dd, "obj")
        scan.write_tree(root, tree)
        res.append({"kind": "obj", "tree": scan.ast(tree), "lax": c["lax"], "dig": True, "forced": "", "dflt": "1.1",
                    "outs": [sut.validate_object(root, how="in-object", lax_digests=c["lax"])]})
    return res


# ---------------------------------------------------------------- C11
def nodes(x, path=()):
    yield path
    if isinstance(x, dict):
        for k in x:
            yield from nodes(x[k], path + (k,))
    elif isinstance(x, list):
        for i, y in enumerate(x):
            yield from nodes(y, path + (i,))


def fuzz_json(rng, inv, n):
    """Replace, delete, rename or duplicate random nodes."""
    inv = copy.deepcopy(inv)
    for _ in range(n):
        ps = [p for p in nodes(inv) if p]
        if not ps:
            break
        p = rng.choice(ps)
        par = inv
        for k in p[:-1]:
            par = par[k]
        k = p[-1]
        op = rng.choice(["replace", "replace", "replace", "delete", "rename", "wrap", "copy"])
        vals = [None, True, False, 0, -1, 1.5, "", "x", [], ["x"], [[]], [None], {}, {"x": "y"}, {"": ""}, {"x": {}}, {"x": []}, 10 ** 30, [{}], "v1", "sha512",
                "a" * 128, {"a" * 128: ["v1/content/a"]}, {"v1": {}}, {"v1": None}]
        if op == "replace":
            par[k] = copy.deepcopy(rng.choice(vals))
        elif op == "delete":
            del par[k]
        elif op == "wrap":
            par[k] = rng.choice([[par[k]], {"x": par[k]}])
        elif op == "copy":
            q = inv
            for z in rng.choice(ps)[:-1]:
                try:
                    q = q[z]
                except (KeyError, IndexError, TypeError):
                    break
            par[k] = copy.deepcopy(q)
        elif op == "rename" and isinstance(par, dict):
            nk = rng.choice(["x", "", "v1", "id", "state", "manifest", "é", str(k) + "x", str(k).upper()])
            if nk not in par:
                par[nk] = par.pop(k)
    return inv


GARBAGE = [b"", b"\0", b"\xff\xfe", b"{", b"}", b"[", b"null", b"NaN", b"1e999", b"\"\\ud800\"", b"\xef\xbb\xbf{}", "{}".encode("utf-16"), "{}".encode("utf-32"),
           b"{\"id\": \"\\ud800\"}", b"{\"a\":1}{\"b\":2}", b"[" * 100000, b"{\"a\":" * 50000, b"0" * 100000, b"-", b"{\"manifest\": [" + b"[" * 5000 + b"]" * 5000 + b"]}",
           b"\xc3\x28", b"{\"id\":\"\xff\"}", b"1" * 5000, b"tru", b"'x'", b"{\"id\": 1,}", b"// c\n{}", b"{}\n\n\n", b"\n{}", b"\x1a", b"\r\n"]


def total_tree(rng, d):
    """Object tree with parts beyond any syntax; returns (desc, tree)."""
    o = objgen.obj(d)
    t = objgen.emit(o)
    f, dirs = t["files"], list(t["dirs"])
    desc = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(["garbage", "garbage", "garbage_side", "surrogate", "bytes", "decl", "side_huge", "names", "type", "dirswap", "nan", "bigint", "strip"])
        invs = sorted(p for p in f if p.endswith("inventory.json") and p.count("/") <= 1)
        sides = sorted(p for p in f if "inventory.json." in p and p.count("/") <= 1)
        desc.append(k)
        if k in ("garbage", "garbage_side") and invs:
            p = rng.choice(invs)
            f[p] = rng.choice(GARBAGE)
            if k == "garbage_side":
                for a in ("sha512", "sha256"):
                    if p + "." + a in f:
                        f[p + "." + a] = objgen.sidecar(f[p], a)
        elif k == "surrogate" and invs:
            p = rng.choice(invs)
            f[p] = f[p].replace(rng.choice([b"\"id\"", b"\"v1\"", b"content", b"message"]), b"\"\\udc80\"", 1)
        elif k == "bytes" and invs:
            p = rng.choice(invs)
            b = bytearray(f[p])
            for _ in range(rng.randint(1, 5)):
                if b:
                    b[rng.randrange(len(b))] = rng.randrange(256)
            f[p] = bytes(b)
        elif k == "decl":
            for p in [p for p in f if p.startswith("0=")]:
                f[p] = rng.choice(GARBAGE[:12])
            f["0=" + rng.choice(["é", "x y", "%", "ocfl_object_1.1\n", "-"])] = rng.choice(GARBAGE[:8])
        elif k == "side_huge" and sides:
            f[rng.choice(sides)] = rng.choice([b"x" * 100000, b"\xff" * 100, b"\0", b" ", b"\n\n", "é inventory.json".encode(), b"a" * 128])
        elif k == "names":
            f[rng.choice(["v1", "v2", "extensions", "logs", "v1/content"]) + "/" + rng.choice(["é", " ", "a\nb", "[x]", "*", "?", "%", "a:b", "#", "~"]) + "/f"] = b"x"
        elif k == "type":
            dirs.append(rng.choice(["inventory.json.sha512", "inventory.json.sha256", "v1/inventory.json", "v1/inventory.json.sha512", "0=ocfl_object_1.0", "v2/inventory.json"]))
        elif k == "dirswap":
            p = rng.choice(sorted(f))
            del f[p]
            dirs.append(p)
        elif k == "nan" and invs:
            p = rng.choice(invs)
            f[p] = f[p].replace(b"\"message\": \"", rng.choice([b"\"message\": NaN, \"m\": \"", b"\"x\": -Infinity, \"m\": \""]), 1)
        elif k == "bigint" and invs:
            p = rng.choice(invs)
            f[p] = f[p].replace(b"\"head\": \"", b"\"head\": " + b"9" * rng.choice([20, 4000, 5000]) + b", \"h\": \"", 1)
        elif k == "strip":
            for p in list(f):
                if rng.random() < 0.4:
                    del f[p]
    alld = set(scan.norm_tree({"files": {}, "dirs": dirs + [p.rpartition("/")[0] for p in f if "/" in p]})["dirs"])
    for p in list(f):
        if p in alld:
            del f[p]
    return "+".join(desc), scan.norm_tree({"files": f, "dirs": [x for x in dirs if x not in f]})


def gen_c11(seed, i):
    rng = random.Random("c11-%s-%d" % (seed, i))
    d = objgen.gen(rng)
    mode = i % 4
    if mode in (0, 1):
        desc, t = total_tree(rng, d)
        return {"desc": "total:" + desc, "tree": t, "kind": "total", "lax": i % 8 < 2}
    o = objgen.obj(d)
    if mode == 2:
        o["root"] = fuzz_json(rng, o["root"], rng.choice([1, 1, 2, 4, 12]))
        desc = "fuzz-root"
    else:
        if not o["vinv"]:
            d = objgen.gen(rng, nver=3)
            o = objgen.obj(d)
        if not o["vinv"]:
            o["vinv"]["v1"] = objgen.inventory(d, 1)
        v = rng.choice(sorted(o["vinv"]))
        o["vinv"][v] = fuzz_json(rng, o["vinv"][v], rng.choice([1, 1, 2, 4, 12]))
        desc = "fuzz-" + v
    return {"desc": desc, "tree": objgen.emit(o), "kind": "obj", "lax": False}


def good_tree():
    rng = random.Random(4)
    return objgen.emit(objgen.obj(objgen.gen(rng, nver=2)))


_good = []


def run_total(c):
    """Repeated validations in various settings; all must agree."""
    import ocfl
    from ocfl.validator import Validator
    if not _good:
        _good.append(good_tree())
    lax = c["lax"]
    outs = []
    with Dir() as dd:
        root = os.path.join(dd, "obj")
        scan.write_tree(root, c["tree"])
        other = os.path.join(dd, "good")
        scan.write_tree(other, _good[0])

        def add(o, grp="full"):
            o["grp"] = grp if o["v"] != "exc" else ""
            outs.append(o)
        add(sut.validate_object(root, how="plain", lax_digests=lax))
        add(sut.validate_object(root, how="warnings", lax_digests=lax, log_warnings=True))
        add(sut.validate_object(root, how="silent", lax_digests=lax, log_errors=False))
        add(sut.validate_object(root, how="lang", lax_digests=lax, lang="xx"))
        add(sut.object_validate(root, how="object", lax=lax))
        add(sut.validate_object(root, how="nodigests", lax_digests=lax, check_digests=False), "nodig")
        add(sut.validate_object(root, how="nodigests-again", lax_digests=lax, check_digests=False, log_warnings=True), "nodig")
        # the same validator used again, and after another object
        v = Validator(lax_digests=lax)

        def reuse(how, path):
            n0 = len(v.log.messages)
            r = sut.call(v.validate_object, path)
            o = sut.verdict(how, r, v.log)
            o["codes"] = sorted(set(x.group(1) for m in v.log.messages[n0:] for x in [re.match(r"(?:\[|Unknown error: )(E\d\d\d)", m)] if x))
            return o
        add(reuse("first", root))
        add(reuse("again", root))
        g1 = reuse("other-between", other)
        add(g1, "good")
        add(reuse("after-other", root))
        add(reuse("other-after", other), "good")
        outs.append(dict(sut.validate_object(other, how="other-fresh"), grp="good"))
        # inspection
        obj = ocfl.Object(lax_digests=lax)
        for how, fn in (("tree", lambda: obj.tree(root)), ("id", lambda: ocfl.Object(path=root).id_from_inventory()),
                        ("parse", lambda: ocfl.Object(path=root).parse_inventory())):
            r = sut.call(fn)
            ok = r[0] == "ok" or isinstance(r[3], ocfl.ObjectException)
            outs.append({"how": how, "grp": "", "v": "done" if ok or how != "id" else "exc", "codes": [], "exc": "" if ok else r[1]})
        p = os.path.join(root, "inventory.json")
        for how in ("standalone", "standalone-again"):
            add(sut.inv_file(p, how=how, lax=lax), "inv")
        after = sut.snapshot(root)
        if after["files"] != c["tree"]["files"] or after["dirs"] != c["tree"]["dirs"] or sut.snapshot(other)["files"] != _good[0]["files"]:
            outs.append({"how": "validate", "grp": "", "v": "wrote", "codes": []})
    r = {"kind": c["kind"], "lax": lax, "dig": True, "dflt": "1.1", "forced": "", "outs": outs}
    if c["kind"] == "obj":
        r["tree"] = scan.ast(c["tree"])
        r["kind"] = "objv"
        nod = [o for o in outs if o["how"].startswith("nodig") or o["grp"] in ("inv", "good")]
        r["outs"] = [o for o in outs if o not in nod]
        return [r, {"kind": "total", "lax": lax, "dig": True, "dflt": "1.1", "forced": "", "outs": nod}]
    return [r]
