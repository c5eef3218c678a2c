----------------------------- MODULE TextJudge ------------------------------
(* Judges what the code made of timestamps, declarations and digests       *)
(* against OcflText.  A case is [id, kind, items] or, for declarations,    *)
(* [id, kind, start, steps]: a trace of operations on one directory.       *)
EXTENDS OcflText, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
NCh == 8
VARIABLES ch, pos
Init == ch \in 1..NCh /\ pos = ch

Cl(name, ok) == IF ok THEN {} ELSE {name}
Rng(s) == {s[i] : i \in DOMAIN s}
Abs(n) == IF n < 0 THEN -n ELSE n

\* [s, res, d, sec, us, tol]: a text read; tol is what a float cannot hold, in millionths
ReadClauses(o) ==
  LET x == TLCEval(ReadStamp(o.s)) IN
  IF o.res = "other" THEN {"stamp-no-result"}
  ELSE IF ~x.ok THEN Cl("bad-stamp-read", o.res = "refused")
  ELSE Cl("good-stamp-refused", o.res = "ok")
       \cup (IF o.res # "ok" THEN {} ELSE Cl("stamp-value", o.d = x.d /\ o.sec = x.s /\ Abs(o.us - x.us) <= o.tol))
\* [d, sec, us, whole, out, res]: the moment written
WriteClauses(o) ==
  IF o.res # "ok" THEN {"stamp-not-written"}
  ELSE IF ~WrittenForm(o.out) THEN {"stamp-form"}
  ELSE LET x == ReadStamp(o.out) IN
       Cl("stamp-written", x.d = o.d /\ x.s = o.sec /\ x.us = (IF o.whole THEN 0 ELSE o.us))
       \cup Cl("stamp-fraction", (Len(o.out) = 20) = (x.us = 0))

\* digests: [how, alg, res, out, truth, fn]
DigestClauses(o) ==
  LET known == IF o.fn = "string" THEN o.alg \in StringAlgs ELSE o.alg \in FileAlgs IN
  IF ~known THEN Cl("unknown-algorithm", o.res = "refused" \/ o.fn = "normal")
  ELSE IF o.res # "ok" THEN {"digest-refused"}
  ELSE CASE o.fn \in {"file", "string"} -> Cl("digest", o.out = Shown(o.alg, o.truth)) \cup Cl("digest-form", DigestForm(o.alg, o.out))
         [] o.fn = "normal" -> Cl("digest-normal", o.out = Normal(o.alg, o.truth))
         [] o.fn = "form" -> Cl("digest-pattern", o.match = DigestForm(o.alg, o.truth))

\* declarations
\* files of the directory: [n, pre, tv, cp, c (characters), t ("file", "dir", "bytes")]
Named(fs, n) == {f \in Rng(fs) : f.n = n}
Have(fs, d) == {f \in Rng(fs) : f.pre = d}
RECURSIVE Less(_, _)
Less(a, b) == IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE ELSE a[1] < b[1] \/ (a[1] = b[1] /\ Less(Tail(a), Tail(b)))
TvOf(e) == IF e.told THEN e.tv ELSE Tvalue(e.content, e.tr)
Ok(fs, e) ==   \* does the declaration have the content it should have
  LET n == e.d \o "=" \o TvOf(e)
      f == Named(fs, n)
  IN TvOf(e) # "" /\ f # {} /\ \A x \in f : x.t = "file" /\ Tvalue(x.c, e.tr) = TvOf(e)
Step(fs, e) ==
  LET same == Rng(e.fs) = Rng(fs)
  IN CASE e.op = "env" -> {}
       [] e.op = "write" ->
            LET n == e.d \o "=" \o TvOf(e) IN
            Cl("declaration-not-written", e.res = "ok")
            \cup Cl("declaration-written", e.res # "ok" \/ ({f.n : f \in Rng(e.fs)} = {f.n : f \in Rng(fs)} \cup {n}
                      /\ \A f \in Rng(e.fs) : IF f.n = n THEN f.t = "file" /\ Chars(f.c) = Chars(e.content) \o <<"\n">> ELSE f \in Rng(fs)))
            \cup Cl("declaration-name", e.name = n)
       [] e.op = "find" ->
            Cl("declarations-touched", same)
            \cup (IF e.limit >= 0 /\ Cardinality(Have(fs, e.d)) > e.limit THEN Cl("too-many-found", e.res = "refused")
                  ELSE Cl("not-found", e.res = "ok")
                       \cup (IF e.res # "ok" THEN {}
                             ELSE Cl("found", {x.n : x \in Rng(e.found)} = {f.n : f \in Have(fs, e.d)} /\ Len(e.found) = Cardinality(Have(fs, e.d))
                                              /\ \A x \in Rng(e.found) : \E f \in Have(fs, e.d) : x.n = f.n /\ x.tv = f.tv)
                                  \cup Cl("found-order", \A i \in 1..(Len(e.found) - 1) : Less(e.found[i].cp, e.found[i + 1].cp))))
       [] e.op = "get" ->
            Cl("declarations-touched", same)
            \cup (IF Cardinality(Have(fs, e.d)) = 1 THEN Cl("get", e.res = "ok" /\ {e.name} = {f.n : f \in Have(fs, e.d)}) ELSE Cl("get-refused", e.res = "refused"))
       [] e.op = "check" ->
            Cl("declarations-touched", same)
            \cup Cl("content-check", (e.res = "ok") = Ok(fs, e)) \cup Cl("content-check-kind", e.res # "other") \cup Cl("content-ok", e.okay = (IF Ok(fs, e) THEN "yes" ELSE "no"))
RECURSIVE Steps(_, _, _)
Steps(c, i, fs) == IF i > Len(c.steps) THEN {} ELSE {<<i, x>> : x \in Step(fs, c.steps[i])} \cup Steps(c, i + 1, c.steps[i].fs)

Clauses(c) ==
  IF c.kind = "decl" THEN Steps(c, 1, c.start)
  ELSE UNION {{<<i, x>> : x \in (CASE c.kind = "read" -> ReadClauses(c.items[i]) [] c.kind = "write" -> WriteClauses(c.items[i]) [] c.kind = "digest" -> DigestClauses(c.items[i]))} : i \in DOMAIN c.items}
Judge(c) == /\ PrintT(ToString(<<"R", c.id, c.kind>>))
            /\ \A f \in Clauses(c) : PrintT(ToString(<<"FAIL", c.id, f[1], f[2]>>))
Next == /\ pos <= Len(Cases)
        /\ Judge(Cases[pos])
        /\ pos' = pos + NCh
        /\ ch' = ch
Spec == Init /\ [][Next]_<<ch, pos>>
=============================================================================
