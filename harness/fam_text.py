"""Timestamps, declarations and digests: calls of the code, judged by TextJudge."""
import hashlib
import os
import random
import re
import time
from datetime import datetime, timedelta, timezone
from fractions import Fraction

import sut
from runner import Dir

YEARS = [1, 2, 4, 99, 100, 400, 999, 1000, 1582, 1600, 1699, 1700, 1752, 1800, 1899, 1900, 1901, 1904, 1912, 1931, 1967, 1968, 1969, 1970, 1971, 1972, 1973, 1980, 1996, 1999,
         2000, 2001, 2004, 2012, 2020, 2023, 2024, 2025, 2026, 2037, 2038, 2039, 2068, 2069, 2099, 2100, 2101, 2400, 4000, 9998, 9999]
ALPHA = list("0123456789") + list("-:.TZ+ztx ,/W\n") + ["٣", "−", "０", "\0"]


# --- timestamps ---
def parts(v):
    """Days, seconds of the day and millionths of a number of seconds."""
    us = round(Fraction(v) * 10**6)
    d, us = divmod(us, 86400 * 10**6)
    s, us = divmod(us, 10**6)
    return d, s, us


def read(s):
    from ocfl.w3c_datetime import str_to_datetime
    r = sut.call(str_to_datetime, s)
    o = {"s": list(s), "res": "ok", "d": 0, "sec": 0, "us": 0, "tol": 1}
    if r[0] == "exc":
        o["res"] = "refused" if isinstance(r[3], ValueError) else "other"
    elif isinstance(r[1], bool) or not isinstance(r[1], (int, float)) or not abs(r[1]) < 10**12:
        o["res"] = "other"
    else:
        o["d"], o["sec"], o["us"] = parts(r[1])
        if abs(r[1]) > 2**32:
            o["tol"] = 40
    return o


def write(us, digit, whole):
    """The moment us millionths of a second (and digit ten millionths) after 1970."""
    from ocfl.w3c_datetime import datetime_to_str
    v = (us * 10 + digit) / 10**7
    if us % 10**6 == 0 and digit == 0:
        v = us // 10**6 if (us // 10**6) % 3 else float(us // 10**6)
    w = us if whole else us + (digit >= 5)
    d, s, m = parts(Fraction(w, 10**6))
    r = sut.call(datetime_to_str, v, whole) if whole else sut.call(datetime_to_str, v)
    ok = r[0] == "ok" and isinstance(r[1], str)
    return {"d": d, "sec": s, "us": m, "whole": whole, "res": "ok" if ok else "other", "out": list(r[1]) if ok else []}


def some_zone(rng):
    return rng.choice(["", "Z", "Z", "+00:00", "-00:00", "%s%02d:%02d" % (rng.choice("+-"), rng.randrange(24), rng.choice([0, 1, 15, 30, 45, 59, rng.randrange(60)]))])


def some_stamp(rng):
    y = rng.choice(YEARS) if rng.random() < 0.5 else rng.randrange(2, 9998)
    m = rng.randrange(1, 13)
    d = rng.choice([1, 28, 29, 30, 31, rng.randrange(1, 29)])
    k = rng.randrange(12)
    if k < 1:
        return rng.choice(["%04d" % y, "%04d-%02d" % (y, m), "%04d-%02d-%02d" % (y, m, d)])
    far = not 1850 < y < 2090
    h, mi, s = rng.choice([0, 23, 12, rng.randrange(24)]), rng.choice([0, 59, rng.randrange(60)]), rng.choice([0, 59, rng.randrange(60)])
    t = "%04d-%02d-%02dT%02d:%02d" % (y, m, d, h, mi)
    if k > 2:
        t += ":%02d" % s
        if k > 5:
            n = rng.randrange(1, 4) if far else rng.choice([1, 2, 3, 4, 5, 6, 6, 7, 9, 12])
            f = "".join(rng.choice("0123456789") for _ in range(n))
            if far:
                f = str(rng.randrange(1, 9)) + f
            elif rng.random() < 0.2:
                f = rng.choice(["0" * n, "9" * min(n, 6), "0" * (n - 1) + "1"])
            t += "." + f
    return t + some_zone(rng)


def gen_read(rng):
    k = rng.randrange(5)
    if k == 0:      # the whole of a month
        y, m = rng.choice(YEARS), rng.randrange(0, 14)
        return ["%04d-%02d-%02d" % (y, m, d) for d in range(0, 33)] + ["%04d-%02d" % (y, m), "%04d" % y] + \
            ["%04d-%02d-%02dT%02d:%02d:%02d%s" % (y, m, d, 23 * (d % 2), 59 * (d % 2), 59 * (d % 2), some_zone(rng)) for d in (1, 28, 29, 30, 31)]
    if k == 1:      # parts of the time out of their range
        b = "%04d-%02d-%02dT" % (rng.choice(YEARS[1:-1]), rng.randrange(1, 13), rng.randrange(1, 29))
        z = some_zone(rng)
        r = [b + "%02d:07:08" % x + z for x in range(0, 26)]
        r += [b + "05:%02d:08" % x + z for x in (0, 1, 30, 58, 59, 60, 61, 99)] + [b + "05:06:%02d" % x + z for x in (0, 1, 30, 58, 59, 60, 61, 99)]
        r += [b + "05:06:07" + g + "%02d:%02d" % (h, mi) for g in "+-" for h, mi in ((0, 0), (0, 1), (1, 0), (23, 59), (23, 60), (24, 0), (12, 99), (99, 0), (14, rng.randrange(60)))]
        return r
    if k == 2:      # malformed
        r = []
        for _ in range(40):
            s = list(some_stamp(rng))
            for _ in range(rng.choice([1, 1, 1, 2])):
                i = rng.randrange(len(s) + 1)
                x = rng.randrange(5)
                if x == 0:
                    s.insert(i, rng.choice(ALPHA))
                elif x == 1 and s:
                    del s[min(i, len(s) - 1)]
                elif x == 2 and s:
                    s[min(i, len(s) - 1)] = rng.choice(ALPHA)
                elif x == 3 and len(s) > 1:
                    j = min(i, len(s) - 2)
                    s[j], s[j + 1] = s[j + 1], s[j]
                else:
                    s = s[:i] if rng.random() < 0.5 else s + list(rng.choice(["Z", "\n", " ", "+01:00", ".5", "0", "T00:00:00Z"]))
            r.append("".join(s))
        return r + ["", "T00:00:00Z", "0000-01-01", "0000-01-01T00:00:00Z", "now"]
    return [some_stamp(rng) for _ in range(40)]


def gen_write(rng):
    r = []
    for _ in range(40):
        k = rng.randrange(4)
        if k == 0:
            d = (datetime(rng.choice(YEARS[2:-1]), rng.randrange(1, 13), 1) - datetime(1970, 1, 1)).days
            s = rng.choice([0, 86399, rng.randrange(86400)])
            r.append(((d * 86400 + s) * 10**6, 0, rng.random() < 0.3))
        elif k == 1:
            s = rng.choice([0, 1, 59, 86399, 10**9 - 1, 10**9, rng.randrange(2**30)])
            f = rng.choice([0, 1, 9, 10, 99999, 100000, 199999, 500000, 999998, 999999, rng.randrange(10**6)])
            r.append((s * 10**6 + f, rng.choice([0, 1, 2, 8, 9]), rng.random() < 0.3))
        elif k == 2:
            r.append((rng.randrange(-2**30, 0) * 10**6 + rng.choice([0, 0, 1, 500000, 999999]), 0, False))
        else:
            r.append((rng.randrange(2**31) * 10**6 + rng.randrange(10**6), 0, False))
    return r


# --- declarations ---
def kind(c):
    return "w" if c.isalnum() or c in "_.-:" else "s" if c.isspace() else "o"


def chars(s):
    return [{"c": c, "k": kind(c)} for c in s]


def entry(n, t, c):
    pre, eq, tv = n.partition("=")
    return {"n": n, "pre": pre if eq else "!", "tv": tv, "cp": [ord(x) for x in n], "t": t, "c": c}


def listing(d):
    res = []
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        if os.path.isdir(p):
            res.append(entry(n, "dir", []))
            continue
        with open(p, "rb") as fh:
            b = fh.read()
        try:
            res.append(entry(n, "file", chars(b.decode("utf-8"))))
        except UnicodeDecodeError:
            res.append(entry(n, "bytes", [{"c": "%02x" % x, "k": "o"} for x in b]))
    return res


def some_content(rng):
    k = rng.randrange(8)
    if k < 3:
        return rng.choice(["ocfl_1.0", "ocfl_1.1", "ocfl_object_1.0", "ocfl_object_1.1", "ocfl", "a", "abc:d-e_f.g"])
    if k == 3:
        n = rng.choice([38, 39, 40, 41, 42, 60])
        return "".join(rng.choice("ab /é_.") for _ in range(n))
    if k == 4:
        return rng.choice([" ", "\t", "  x", "\n"]) + rng.choice(["ocfl_1.0", "a b", "x" * 39 + " y", ""]) + rng.choice([" ", "\n", "", "\n\n"])
    return "".join(rng.choice(["a", "B", "7", " ", "=", "/", "\\", "*", "é", "中", "²", "\u00a0", "-", ":", ".", "_", "'", "+", "~"]) for _ in range(rng.randrange(0, 12)))


def some_bytes(rng, n):
    t = n.partition("=")[2].encode()
    return rng.choice([b"\xff\xfe\n", t + b"\n\xff", t, t + b"\n", t + b"\n", b"\n \t" + t + b" \n\n", t + b"\nmore\n", t + b"\n\n.", t[:-1] + b"\n", t.upper() + b"\n", b"other\n", b"", b"x" + t])


def decl(c):
    import fsspec
    from fsspec.implementations.dirfs import DirFileSystem
    from ocfl.namaste import Namaste, NamasteException, find_namastes, get_namaste
    rng = random.Random(c["rng"])
    with Dir() as base:
        sub = rng.choice(["", "", "deep"])
        d = os.path.join(base, sub) if sub else base
        os.makedirs(d, exist_ok=True)
        for _ in range(rng.randrange(0, 4)):
            n = rng.choice(["0=ocfl_1.0", "0=ocfl_object_1.0", "0=ocfl_object_1.1", "0=a", "0=", "0", "00=a", "10=a", "1=a", "=a", "0=a=b", "x", "a0=b", "0=%s" % ("y" * 40)])
            p = os.path.join(d, n)
            k = rng.randrange(6)
            if k == 0 and not os.path.exists(p):
                os.makedirs(p)
            elif k and not os.path.isdir(p):
                with open(p, "wb") as fh:
                    fh.write(some_bytes(rng, n))
        start = listing(d)
        steps = []
        mode = rng.choice(["path", "fs"])
        fs = DirFileSystem(base, fsspec.filesystem("file")) if mode == "fs" else None
        where = sub if mode == "fs" else d
        kw = {} if fs is None else {"fsw": fs}

        def call(fn):
            r = sut.call(fn)
            return r, "ok" if r[0] == "ok" else "refused" if isinstance(r[3], NamasteException) else "other"
        for _ in range(rng.randrange(3, 9)):
            op = rng.choice(["write", "find", "check", "check", "check", "get", "env"])
            num = rng.choice(["0", "0", "0", "1", "10"])
            e = {"op": op, "d": num, "told": False, "tv": "", "tr": "default", "content": [], "name": "", "res": "", "okay": "", "found": [], "limit": -1}
            if op == "env":      # something else changes a file
                ns = [f["n"] for f in listing(d) if f["t"] != "dir"]
                if not ns:
                    continue
                n = rng.choice(ns)
                with open(os.path.join(d, n), "wb") as fh:
                    fh.write(some_bytes(rng, n))
            elif op == "get":
                if mode == "fs":
                    continue
                r, e["res"] = call(lambda n=num: get_namaste(int(n), d))
                e["name"] = r[1].filename if e["res"] == "ok" else ""
            elif op == "find":
                k = rng.choice([None, 0, 1, 2, 3, 10, "default"])
                e["limit"] = -1 if k is None else 10 if k == "default" else k
                a = dict(kw)
                if k != "default":
                    a["limit"] = k
                r, e["res"] = call(lambda n=num, x=a: find_namastes(int(n), where, **x))
                if e["res"] == "ok":
                    e["found"] = [{"n": x.filename, "tv": x.tvalue, "cp": [ord(y) for y in x.filename]} for x in r[1]]
            else:
                s = some_content(rng)
                a = {}
                if rng.random() < 0.15:
                    e["tr"] = "strip"
                    a["tr_func"] = lambda t: t.strip()
                    s = s.replace("/", "")
                if op == "check" and rng.random() < 0.8 or rng.random() < 0.1:
                    e["told"] = True
                    tv = [f["tv"] for f in listing(d) if f["pre"] == num]
                    e["tv"] = rng.choice(tv) if tv and rng.random() < 0.8 else rng.choice(["a", "ocfl_1.0", "none", ""])
                    a["tvalue"] = e["tv"]
                e["content"] = chars(s)
                nm = Namaste(int(num), s, **a)
                if op == "write":
                    if os.path.isdir(os.path.join(d, nm.filename)) or "\n" in nm.filename or (fs is not None and not s.isascii()):
                        continue
                    r, e["res"] = call(lambda x=nm: x.write(where, **kw))
                    e["name"] = nm.filename
                else:
                    r, e["res"] = call(lambda x=nm: x.check_content(where, **kw))
                    r = sut.call(nm.content_ok, where, **kw)
                    e["okay"] = "exc" if r[0] == "exc" else "yes" if r[1] is True else "no" if r[1] is False else "other"
            e["fs"] = listing(d)
            steps.append(e)
    return [{"kind": "decl", "items": [], "start": start, "steps": steps}]


# --- digests ---
TRUE = {"md5": hashlib.md5, "sha1": hashlib.sha1, "sha256": hashlib.sha256, "sha512": hashlib.sha512, "blake2b-512": hashlib.blake2b,
        "blake2b-384": lambda b: hashlib.blake2b(b, digest_size=48), "blake2b-256": lambda b: hashlib.blake2b(b, digest_size=32),
        "blake2b-160": lambda b: hashlib.blake2b(b, digest_size=20), "sha512-spec-ex": hashlib.sha512, "sha256-spec-ex": hashlib.sha256}
UNKNOWN = ["", "SHA512", "sha-512", "sha384", "md4", "blake2b", "sha512 ", "sha512/256", "crc32"]


def digest(c):
    import fsspec
    from fsspec.implementations.dirfs import DirFileSystem
    from fsspec.implementations.memory import MemoryFileSystem
    from ocfl import digest as dg
    rng = random.Random(c["rng"])
    items = []

    def item(fn, alg, r, truth, match=False):
        ok = r[0] == "ok" and isinstance(r[1], str)
        items.append({"fn": fn, "alg": alg, "res": "ok" if ok else "refused" if r[0] == "exc" and isinstance(r[3], ValueError) else "other", "out": list(r[1]) if ok else [], "truth": list(truth), "match": match})
    with Dir() as base:
        n = rng.choice([0, 1, 2, 1000, 4096, 65535, 65536, 65537, 131071, 131072, 131073, 200000, 1000000, rng.randrange(300000)])
        b = bytes([rng.randrange(256)]) * n if rng.random() < 0.3 else rng.randbytes(n)
        f = rng.choice(["f", "d/f", "ü x", "d/e/a=b"])
        os.makedirs(os.path.dirname(os.path.join(base, f)), exist_ok=True)
        with open(os.path.join(base, f), "wb") as fh:
            fh.write(b)
        mem = MemoryFileSystem()
        mp = "/digest%s" % base.replace("/", "_")
        mem.pipe_file(mp, b)
        for alg in sorted(TRUE) + [rng.choice(UNKNOWN)]:
            t = TRUE.get(alg, hashlib.md5)(b).hexdigest()
            way = rng.randrange(4)
            if way == 0:
                r = sut.call(dg.file_digest, os.path.join(base, f), alg)
            elif way == 1:
                r = sut.call(dg.file_digest, f, digest_type=alg, fs=DirFileSystem(base, fsspec.filesystem("file")))
            elif way == 2:
                r = sut.call(dg.file_digest, filename=mp, digest_type=alg, fs=mem)
            else:
                r = sut.call(dg.file_digest, os.path.join(base, f), digest_type=alg, fs=fsspec.filesystem("file"))
            item("file", alg, r, t)
        item("file", "sha512", sut.call(dg.file_digest, os.path.join(base, f)), hashlib.sha512(b).hexdigest())
        mem.rm_file(mp)
    s = rng.choice(["", "a", "\n", "info:x/y", "é中", "x" * 70000, "a\0b", "http://example.org/é"])
    for alg in sorted(TRUE) + [rng.choice(UNKNOWN)]:
        item("string", alg, sut.call(dg.string_digest, s, alg), TRUE.get(alg, hashlib.md5)(s.encode()).hexdigest())
    item("string", "sha512", sut.call(dg.string_digest, s), hashlib.sha512(s.encode()).hexdigest())
    for alg in sorted(TRUE) + [rng.choice(UNKNOWN)]:
        t = TRUE.get(alg, hashlib.md5)(b).hexdigest()
        if alg.endswith("-spec-ex"):
            k = 15 if "512" in alg else 6
            t = t[:k] + "..." + t[-3:]
        for x in (t, t.upper(), "".join(rng.choice([y, y.upper()]) for y in t), t[:-1], t + "0", t[:-1] + rng.choice("gG \né.x"), "0x" + t[2:], t + "\n", t.replace("...", ".."), " " + t, "",
                  t.replace(".", "0")):
            if x in (t, t.upper()) or x.lower() == t:
                item("normal", alg, sut.call(dg.normalized_digest, x, alg), x)
            r = sut.call(dg.digest_regex, alg)
            m = False
            if r[0] == "ok":
                m = sut.call(lambda p=r[1], y=x: re.fullmatch(p, y) is not None and not y.endswith("\n"))
                m = m[0] == "ok" and m[1]
            item("form", alg, ("ok", "") if r[0] == "ok" else r, x, m)
    return [{"kind": "digest", "items": items, "start": [], "steps": []}]


# --- families ---
def gen(seed, i):
    return {"rng": "%s/%d/text" % (seed, i), "kind": ("read", "write", "read", "decl", "read", "decl", "digest", "decl")[i % 8], "desc": ("read", "write", "read", "decl", "read", "decl", "digest", "decl")[i % 8]}


def run(c):
    rng = random.Random(c["rng"])
    if c["kind"] == "decl":
        return decl(c)
    if c["kind"] == "digest":
        return digest(c)
    if c["kind"] == "read":
        its = [read(s) for s in gen_read(rng)]
    else:
        its = [write(*x) for x in gen_write(rng)]
        its.append(now())
    return [{"kind": c["kind"], "items": its, "start": [], "steps": []}]


def now():
    """The present, and nothing for nothing."""
    from ocfl.w3c_datetime import datetime_to_str, str_to_datetime
    t0 = time.time()
    r = sut.call(datetime_to_str)
    t1 = time.time()
    good = sut.call(lambda: t0 - 0.001 <= datetime.fromisoformat(r[1][:-1]).replace(tzinfo=timezone.utc).timestamp() <= t1 + 0.001)
    none = sut.call(lambda: datetime_to_str(None) is None and str_to_datetime(None) is None)
    ok = good == ("ok", True) and none == ("ok", True)
    x = datetime(1970, 1, 1) + timedelta(0)
    return {"d": 0, "sec": 0, "us": 0, "whole": False, "res": "ok" if ok else "other", "out": list(x.isoformat() + "Z")}


def model_years(big):
    return list(range(1890, 2110)) if big else list(range(1896, 1906)) + list(range(1968, 1978)) + list(range(1996, 2006)) + list(range(2096, 2106))


def gen_model(big):
    """Every date of the years of the model, written and read."""
    ys = model_years(big)

    def g(seed, i):
        return {"year": ys[i], "desc": "year"}
    return g


def run_model(c):
    a = (datetime(c["year"], 1, 1) - datetime(1970, 1, 1)).days
    n = (datetime(c["year"] + 1, 1, 1) - datetime(1970, 1, 1)).days
    rng = random.Random(c["year"])
    rd, wr = [], []
    for d in range(a, n):
        x = datetime(1970, 1, 1) + timedelta(days=d)
        rd.append(read(x.strftime("%Y-%m-%d")))
        if (x + timedelta(days=1)).day == 1:
            rd.append(read("%04d-%02d-%02d" % (x.year, x.month, x.day + 1)))
        s = rng.choice([0, 1, 59, 60, 3599, 3600, 43200, 86399])
        us = rng.choice([0, 1, 100000, 999999])
        o = write((d * 86400 + s) * 10**6 + us, 0, False)
        wr.append(o)
        rd.append(read("".join(o["out"])))
    return [{"kind": "read", "items": rd, "start": [], "steps": []}, {"kind": "write", "items": wr, "start": [], "steps": []}]
