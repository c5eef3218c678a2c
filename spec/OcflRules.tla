----------------------------- MODULE OcflRules -----------------------------
(***************************************************************************)
(* The rules of OCFL 1.0/1.1 for inventories and objects, as functions of  *)
(* an abstract syntax tree.                                                *)
(*                                                                         *)
(* A tree is [files |-> <<file>>, dirs |-> <<dir>>] where                  *)
(*   file = [p |-> <<segments>>, k |-> kind, c |-> bytes id, ...]          *)
(*     kind "c"    any other file                                          *)
(*     kind "inv"  a file named inventory.json in the root or in a child   *)
(*                 directory; j |-> tagged JSON value ("x": not JSON)      *)
(*     kind "side" inventory.json.ALG: alg, form (syntax right), d (digest)*)
(*     kind "nam"  0=VALUE in the root: tv |-> VALUE, ok |-> yes/no/loose  *)
(*   dir  = [p |-> <<segments>>, v |-> name looks like a version directory]*)
(* Bytes are abstracted to ids; a digest token d carries its lower-case    *)
(* form n, its raw form, its length, whether it is hexadecimal, and the    *)
(* set `is' of <<algorithm, bytes id>> it is the true digest of.           *)
(*                                                                         *)
(* A result has                                                            *)
(*   must   a set of broken rules, each given as the set of the error      *)
(*          codes which may name it                                        *)
(*   may    codes that may be reported in addition once something is broken*)
(*   wild   structure too broken to judge which codes are reported         *)
(*   unspec the OCFL rules leave the verdict open                          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}

\* --- tagged JSON ---
Has(o, k) == \E i \in DOMAIN o.v : o.v[i].k = k
Get(o, k) == o.v[CHOOSE i \in DOMAIN o.v : o.v[i].k = k].w
IsStr(w) == w.t = "s"
IsObj(w) == w.t = "o"
IsArr(w) == w.t = "a"

\* --- digests ---
HexLen == [sha512 |-> 128, sha256 |-> 64, sha1 |-> 40, md5 |-> 32] @@
          ("blake2b-512" :> 128) @@ ("blake2b-384" :> 96) @@
          ("blake2b-256" :> 64) @@ ("blake2b-160" :> 40)
KnownAlgs == DOMAIN HexLen
ContentAlgs == {"sha512", "sha256"}
DigestSyntax(alg, d) == IF alg \in KnownAlgs THEN d.hex /\ d.len = HexLen[alg] ELSE TRUE
TrueDigest(alg, d, c) == <<alg, c>> \in Rng(d.is)

\* --- paths ---
BadSegs == {"", ".", ".."}
LeadTrail(g) == Len(g) > 1 /\ (g[1] = "" \/ g[Len(g)] = "")
HasBad(g) == \E i \in DOMAIN g : g[i] \in BadSegs
ProperPrefix(a, b) == Len(a) < Len(b) /\ a = SubSeq(b, 1, Len(a))
Conflict(P) == \E a \in P : \E b \in P : ProperPrefix(a, b)

\* --- timestamps: RFC3339, lexical fields supplied ---
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31
                  [] m \in {4, 6, 9, 11} -> 30
                  [] OTHER -> IF Leap(y) THEN 29 ELSE 28
TimestampOK(ts) ==
  /\ ts.f = "full"
  /\ ts.mo \in 1..12
  /\ ts.d \in 1..DaysIn(ts.y, ts.mo)
  /\ ts.h \in 0..23 /\ ts.mi \in 0..59 /\ ts.s \in 0..59
  /\ ts.tzh \in 0..23 /\ ts.tzm \in 0..59
\* Cases which RFC3339 and ISO8601 treat differently: not judged
TimestampOpen(ts) == ts.f = "open" \/ (ts.f = "full" /\ (ts.s = 60 \/ ts.h = 24 \/ ts.y = 0))

\* --- specification versions ---
SpecVersions == {"1.0", "1.1"}
TypeOf(v) == "https://ocfl.io/" \o v \o "/spec/#inventory"
SpecOfType(s) == IF s = TypeOf("1.0") THEN "1.0" ELSE IF s = TypeOf("1.1") THEN "1.1" ELSE "none"
SpecNum(v) == IF v = "1.0" THEN 10 ELSE 11

Pow10(w) == IF w > 8 THEN 100000000 ELSE 10 ^ w

U(S) == UNION S

(***************************************************************************)
(* Inventory                                                               *)
(***************************************************************************)
\* The parts of an inventory are looked at one by one; each Part returns
\* the set of broken rules (a set of code sets)

IdPart(j) == IF ~Has(j, "id") THEN {{"E036"}}
             ELSE IF ~IsStr(Get(j, "id")) \/ Get(j, "id").v = "" THEN {{"E037"}} ELSE {}

TypePart(j, forced) ==
  IF ~Has(j, "type") THEN {{"E036"}}
  ELSE LET w == Get(j, "type") IN
    IF ~IsStr(w) THEN {{"E038"}}
    ELSE IF forced # "" THEN (IF w.v = TypeOf(forced) THEN {} ELSE {{"E038"}})
    ELSE IF SpecOfType(w.v) = "none" THEN {{"E038"}} ELSE {}

InvSpec(j, forced, dflt) ==
  IF forced # "" THEN forced
  ELSE IF Has(j, "type") /\ IsStr(Get(j, "type")) /\ SpecOfType(Get(j, "type").v) # "none"
       THEN SpecOfType(Get(j, "type").v) ELSE dflt

AlgPart(j, lax) ==
  IF ~Has(j, "digestAlgorithm") THEN {{"E036"}}
  ELSE LET w == Get(j, "digestAlgorithm") IN
    IF ~IsStr(w) THEN {{"E025"}}
    ELSE IF lax \/ w.v \in ContentAlgs THEN {} ELSE {{"E025"}}
AlgBad(j, lax) == Has(j, "digestAlgorithm") /\ AlgPart(j, lax) # {}
InvAlg(j, lax) == IF Has(j, "digestAlgorithm") /\ AlgPart(j, lax) = {}
                  THEN Get(j, "digestAlgorithm").v ELSE "sha512"

CdPart(j) ==
  IF ~Has(j, "contentDirectory") THEN {}
  ELSE LET w == Get(j, "contentDirectory") IN
    IF ~IsStr(w) THEN {{"E017"}}
    ELSE IF Len(w.g) > 1 THEN {{"E017"}}
    ELSE IF w.v \in {".", ".."} THEN {{"E018"}} ELSE {}
InvCd(j) == IF Has(j, "contentDirectory") /\ CdPart(j) = {} THEN Get(j, "contentDirectory").v ELSE "content"
CdSet(j) == Has(j, "contentDirectory") /\ CdPart(j) = {}

\* version sequence
VersionsOK(j) == Has(j, "versions") /\ IsObj(Get(j, "versions"))
VEntries(j) == IF VersionsOK(j) THEN Get(j, "versions").v ELSE <<>>
SeqOK(j) ==
  LET vs == VEntries(j)
      N == Len(vs)
      S == {<<vs[i].vn.n, vs[i].vn.w>> : i \in DOMAIN vs}
  IN N > 0 /\ \/ S = {<<n, 0>> : n \in 1..N}
              \/ \E w \in 2..10 : S = {<<n, w>> : n \in 1..N} /\ Pow10(w - 1) > N
VersionKeys(j) == {VEntries(j)[i].k : i \in DOMAIN VEntries(j)}
\* the version keys in numeric order (only meaningful if SeqOK)
VersionOrder(j) ==
  LET vs == VEntries(j)
  IN TLCEval([n \in 1..Len(vs) |-> vs[CHOOSE i \in DOMAIN vs : vs[i].vn.n = n].k])
VersionBlock(j, key) == Get(Get(j, "versions"), key)

SeqPart(j) ==
  IF ~Has(j, "versions") THEN {{"E041"}}
  ELSE IF ~IsObj(Get(j, "versions")) THEN {{"E044"}}
  ELSE LET vs == VEntries(j) IN
    IF Len(vs) = 0 THEN {{"E008"}}
    ELSE IF SeqOK(j) THEN {}
    ELSE IF ~\E i \in DOMAIN vs : vs[i].vn.n = 1 THEN {{"E009"}}
    ELSE {{"E010", "E011", "E012"}}

HeadPart(j) ==
  IF ~Has(j, "head") THEN {{"E036"}}
  ELSE IF ~SeqOK(j) THEN {}
  ELSE LET w == Get(j, "head")
           last == VersionOrder(j)[Len(VEntries(j))]
       IN IF IsStr(w) /\ w.v = last THEN {} ELSE {{"E040"}}

\* manifest
ManOK(j) == Has(j, "manifest") /\ IsObj(Get(j, "manifest"))
ManEntries(j) == IF ManOK(j) THEN Get(j, "manifest").v ELSE <<>>
ManGood(j, alg) == {i \in DOMAIN ManEntries(j) : DigestSyntax(alg, ManEntries(j)[i].d) /\ IsArr(ManEntries(j)[i].w)}
\* all string path positions <<i, k>>
PathPos(es, good) == UNION {{<<i, k>> : k \in {k \in DOMAIN es[i].w.v : IsStr(es[i].w.v[k])}} : i \in good}
PathAt(es, ik) == es[ik[1]].w.v[ik[2]].g
ContentPathBad(g, cd, vkeys) ==
  IF LeadTrail(g) THEN {"E100"}
  ELSE IF ~(Len(g) >= 3 /\ g[2] = cd /\ g[1] \in vkeys)
       THEN (IF HasBad(g) THEN {"E042", "E099"} ELSE {"E042"})
  ELSE IF HasBad(g) THEN {"E099"} ELSE {}
ManPart(j, alg, cd) ==
  IF ~Has(j, "manifest") \/ ~IsObj(Get(j, "manifest")) THEN {{"E041"}}
  ELSE LET es == ManEntries(j)
           good == ManGood(j, alg)
           pos == PathPos(es, good)
           paths == {PathAt(es, x) : x \in pos}
           vkeys == VersionKeys(j)
           ok == {g \in paths : ContentPathBad(g, cd, vkeys) = {}}
       IN (IF \E i \in DOMAIN es : ~DigestSyntax(alg, es[i].d) THEN {{"E025"}} ELSE {})
          \cup (IF \E i \in DOMAIN es : DigestSyntax(alg, es[i].d) /\
                     (~IsArr(es[i].w) \/ \E k \in DOMAIN es[i].w.v : ~IsStr(es[i].w.v[k]))
                THEN {{"E092"}} ELSE {})
          \cup (IF Cardinality({es[i].d.n : i \in good}) < Cardinality(good) THEN {{"E096"}} ELSE {})
          \cup ({ContentPathBad(g, cd, vkeys) : g \in paths} \ {{}})
          \cup (IF Cardinality({x \in pos : PathAt(es, x) \in ok}) > Cardinality(ok) \/ Conflict(ok)
                THEN {{"E101"}} ELSE {})

\* one version block
LogicalPathBad(g) == IF LeadTrail(g) THEN {"E053"} ELSE IF HasBad(g) THEN {"E052"} ELSE {}
StatePart(s, alg, manRaw, manNorm, manKnown) ==
  IF ~IsObj(s) THEN {{"E050"}}
  ELSE LET es == s.v
           good == {i \in DOMAIN es : DigestSyntax(alg, es[i].d) /\ IsArr(es[i].w)}
           pos == PathPos(es, good)
           paths == {PathAt(es, x) : x \in pos}
           ok == {g \in paths : LogicalPathBad(g) = {}}
       IN (IF \E i \in DOMAIN es : \/ i \notin good
                                   \/ \E k \in DOMAIN es[i].w.v : ~IsStr(es[i].w.v[k])
           THEN {{"E050"}} ELSE {})
          \cup (IF manKnown /\ \E i \in good : es[i].d.n \notin manNorm \/ es[i].d.raw \notin manRaw
                THEN {{"E050"}} ELSE {})
          \cup ({LogicalPathBad(g) : g \in paths} \ {{}})
          \cup (IF Cardinality({x \in pos : PathAt(es, x) \in ok}) > Cardinality(ok) \/ Conflict(ok)
                THEN {{"E095"}} ELSE {})
UserPart(b) ==
  IF ~Has(b, "user") THEN {}
  ELSE LET u == Get(b, "user") IN
    IF ~IsObj(u) THEN {{"E054"}}
    ELSE IF \/ ~Has(u, "name") \/ ~IsStr(Get(u, "name"))
            \/ (Has(u, "address") /\ ~IsStr(Get(u, "address")))
         THEN {{"E054"}} ELSE {}
CreatedPart(b) ==
  IF ~Has(b, "created") THEN {{"E048"}}
  ELSE IF ~IsStr(Get(b, "created")) THEN {{"E049"}}
  ELSE IF TimestampOK(Get(b, "created").ts) \/ TimestampOpen(Get(b, "created").ts) THEN {} ELSE {{"E049"}}
MessagePart(b) == IF Has(b, "message") /\ ~IsStr(Get(b, "message")) THEN {{"E094"}} ELSE {}
BlockPart(b, alg, manRaw, manNorm, manKnown) ==
  IF ~IsObj(b) THEN {{"E047"}}
  ELSE CreatedPart(b) \cup MessagePart(b) \cup UserPart(b)
       \cup (IF ~Has(b, "state") THEN {{"E048"}}
             ELSE StatePart(Get(b, "state"), alg, manRaw, manNorm, manKnown))
OpenCreated(j) == \E i \in DOMAIN VEntries(j) :
   LET b == VEntries(j)[i].w IN
     IsObj(b) /\ Has(b, "created") /\ IsStr(Get(b, "created")) /\ TimestampOpen(Get(b, "created").ts)

\* a digest with no paths at all in the manifest: not judged
EmptyList(j) == \E i \in DOMAIN ManEntries(j) : IsArr(ManEntries(j)[i].w) /\ ManEntries(j)[i].w.v = <<>>

StateDigests(j, alg) ==
  UNION {LET b == VEntries(j)[i].w IN
           IF IsObj(b) /\ Has(b, "state") /\ IsObj(Get(b, "state"))
           THEN {Get(b, "state").v[k].d.n : k \in DOMAIN Get(b, "state").v} ELSE {}
         : i \in DOMAIN VEntries(j)}

FixityPart(j, lax, spec, typeOK) ==
  IF ~Has(j, "fixity") THEN {}
  ELSE LET f == Get(j, "fixity") IN
    IF ~IsObj(f) THEN {IF ~typeOK THEN {"E056", "E111"} ELSE IF spec = "1.0" THEN {"E056"} ELSE {"E111"}}
    ELSE
    LET manPaths == {PathAt(ManEntries(j), x) : x \in PathPos(ManEntries(j), {i \in DOMAIN ManEntries(j) : IsArr(ManEntries(j)[i].w)})}
        Blk(i) ==
          LET a == f.v[i].k
              b == f.v[i].w
          IN IF a \notin KnownAlgs /\ ~lax THEN {{"E056"}}
             ELSE IF ~IsObj(b) THEN {{"E057"}}
             ELSE LET good == {k \in DOMAIN b.v : DigestSyntax(a, b.v[k].d) /\ IsArr(b.v[k].w)}
                      Norm(k) == IF a \in KnownAlgs THEN b.v[k].d.n ELSE b.v[k].d.raw
                  IN (IF \E k \in DOMAIN b.v : k \notin good
                           \/ \E x \in DOMAIN b.v[k].w.v : ~IsStr(b.v[k].w.v[x])
                                \/ (ManOK(j) /\ b.v[k].w.v[x].g \notin manPaths)
                      THEN {{"E057"}} ELSE {})
                     \cup (IF Cardinality({Norm(k) : k \in good}) < Cardinality(good) THEN {{"E097"}} ELSE {})
    IN UNION {Blk(i) : i \in DOMAIN f.v}

NoInv == [must |-> {{"E033"}}, may |-> {}, wild |-> FALSE, unspec |-> FALSE,
          alg |-> "sha512", algsure |-> FALSE, cd |-> "content", cdset |-> FALSE, spec |-> "1.1", specsure |-> FALSE,
          seqok |-> FALSE, order |-> <<>>]

InvRes(j, lax, forced, dflt) ==
  IF ~IsObj(j) THEN NoInv
  ELSE
  LET alg == InvAlg(j, lax)
      cd == InvCd(j)
      wild == AlgBad(j, lax)
      man == ManPart(j, alg, cd)
      manRaw == {ManEntries(j)[i].d.raw : i \in DOMAIN ManEntries(j)}
      manNorm == {ManEntries(j)[i].d.n : i \in DOMAIN ManEntries(j)}
      typ == TypePart(j, forced)
      spec == InvSpec(j, forced, dflt)
      seq == SeqPart(j)
      blocks == UNION {BlockPart(VEntries(j)[i].w, alg, manRaw, manNorm, ManOK(j)) : i \in DOMAIN VEntries(j)}
      unused == IF ManOK(j) /\ VersionsOK(j) /\ seq = {} /\ ~(manNorm \subseteq StateDigests(j, alg))
                THEN {{"E107"}} ELSE {}
      fix == FixityPart(j, lax, spec, typ = {})
      rest == man \cup blocks \cup unused \cup fix
      must == IdPart(j) \cup typ \cup AlgPart(j, lax) \cup
              (IF wild THEN {} ELSE CdPart(j) \cup seq \cup HeadPart(j) \cup rest)
      algMissing == ~Has(j, "digestAlgorithm")
      may == (IF man # {} THEN {"E050", "E107", "E057", "E042", "E101", "E096", "E099"} ELSE {})
             \cup (IF U(blocks) \cap {"E047", "E048", "E050", "E052", "E053", "E095"} # {}
                   THEN {"E107", "E050", "E095", "E052"} ELSE {})
             \cup (IF fix # {} THEN {"E057"} ELSE {})
             \cup (IF seq # {} THEN {"E008", "E009", "E010", "E011", "E012", "E040", "E042", "E050", "E107", "E046"} ELSE {})
             \cup (IF CdPart(j) # {} THEN {"E042", "E017", "E018"} ELSE {})
             \cup (IF OpenCreated(j) THEN {"E049"} ELSE {})
             \cup (IF EmptyList(j) THEN {"E050", "E107"} ELSE {})
             \cup (IF algMissing THEN {"E025", "E050", "E107", "E057"} ELSE {})
  IN TLCEval([must |-> must, may |-> may, wild |-> wild, unspec |-> OpenCreated(j) \/ EmptyList(j),
      alg |-> alg, algsure |-> ~wild /\ ~algMissing, cd |-> cd, cdset |-> CdSet(j),
      spec |-> spec, specsure |-> typ = {},
      seqok |-> seq = {}, order |-> IF seq = {} THEN VersionOrder(j) ELSE <<>>])

(***************************************************************************)
(* Meaning of a valid inventory                                            *)
(***************************************************************************)
StateOf(j, v) == Get(VersionBlock(j, v), "state").v
\* logical paths of version v
LogicalPaths(j, v) == UNION {{StateOf(j, v)[i].w.v[k].g : k \in DOMAIN StateOf(j, v)[i].w.v} : i \in DOMAIN StateOf(j, v)}
DigestFor(j, v, g) == LET es == StateOf(j, v) IN
   es[CHOOSE i \in DOMAIN es : \E k \in DOMAIN es[i].w.v : es[i].w.v[k].g = g].d.n
ManPaths(j) == UNION {{ManEntries(j)[i].w.v[k].g : k \in DOMAIN ManEntries(j)[i].w.v} : i \in DOMAIN ManEntries(j)}
PathsForDigest(j, n) == UNION {IF ManEntries(j)[i].d.n = n THEN {ManEntries(j)[i].w.v[k].g : k \in DOMAIN ManEntries(j)[i].w.v} ELSE {}
                               : i \in DOMAIN ManEntries(j)}

\* Does the inventory p of an earlier version contradict the root inventory r? (both valid)
Contradicts(r, p, ralg, palg, ro, po) ==
  \/ ~(Rng(po) \subseteq Rng(ro) /\ Len(po) < Len(ro))
  \/ \E n \in DOMAIN po :
       LET v == po[n] IN
         \/ LogicalPaths(p, v) # LogicalPaths(r, v)
         \/ \E g \in LogicalPaths(p, v) :
              \/ ~(PathsForDigest(p, DigestFor(p, v, g)) \subseteq PathsForDigest(r, DigestFor(r, v, g)))
              \/ (ralg = palg /\ DigestFor(p, v, g) # DigestFor(r, v, g))
         \/ ralg = palg /\ {StateOf(p, v)[i].d.n : i \in DOMAIN StateOf(p, v)} # {StateOf(r, v)[i].d.n : i \in DOMAIN StateOf(r, v)}

(***************************************************************************)
(* Object                                                                  *)
(***************************************************************************)
FilesAt(t, p) == {i \in DOMAIN t.files : t.files[i].p = p}
HasFile(t, p) == FilesAt(t, p) # {}
FileAt(t, p) == t.files[CHOOSE i \in DOMAIN t.files : t.files[i].p = p]
HasDir(t, p) == \E i \in DOMAIN t.dirs : t.dirs[i].p = p
HasEntry(t, p) == HasFile(t, p) \/ HasDir(t, p)
RootFiles(t) == {i \in DOMAIN t.files : Len(t.files[i].p) = 1}
RootDirs(t) == {i \in DOMAIN t.dirs : Len(t.dirs[i].p) = 1}
Under(p, d) == Len(p) > Len(d) /\ SubSeq(p, 1, Len(d)) = d

SideName(alg) == "inventory.json." \o alg
DeclName(v) == "0=ocfl_object_" \o v

\* The sidecar of the inventory at directory d (<<>> is the root)
SidePart(t, d, alg, dig) ==
  LET sp == d \o <<SideName(alg)>>
      inv == FileAt(t, d \o <<"inventory.json">>)
  IN IF HasDir(t, sp) THEN {{"E058", "E060", "E061", "E001", "E015"}}
     ELSE IF ~HasFile(t, sp) THEN {{"E058"}}
     ELSE IF ~dig THEN {}
     ELSE LET s == FileAt(t, sp) IN
       IF ~s.form THEN {{"E061"}}
       ELSE IF TrueDigest(alg, s.d, inv.c) /\ s.d.raw = s.d.n THEN {} ELSE {{"E060"}}
SideOpen(t, d, alg, dig) ==     \* an upper-case digest is not judged
  LET sp == d \o <<SideName(alg)>> IN
    HasFile(t, sp) /\ LET s == FileAt(t, sp) IN s.form /\ s.d.raw # s.d.n

DeclNames(t) == {t.files[i].p[1] : i \in {i \in RootFiles(t) : t.files[i].k = "nam"}}
                \cup {t.dirs[i].p[1] : i \in {i \in RootDirs(t) : t.dirs[i].decl}}
SupportedDecls(t) == DeclNames(t) \cap {DeclName(v) : v \in SpecVersions}
DeclSpec(t) == IF DeclName("1.1") \in DeclNames(t) THEN "1.1"
               ELSE IF DeclName("1.0") \in DeclNames(t) THEN "1.0" ELSE "none"
DeclPart(t) ==
  (IF SupportedDecls(t) = {} THEN {{"E003"}} ELSE {})
  \cup (IF Cardinality(DeclNames(t)) > 1 THEN {{"E003"}} ELSE {})
  \cup (IF DeclNames(t) # SupportedDecls(t) THEN {{"E006"}} ELSE {})
  \cup (IF \E n \in SupportedDecls(t) : HasDir(t, <<n>>) \/ FileAt(t, <<n>>).ok = "no" THEN {{"E007"}} ELSE {})
DeclOpen(t) == \E n \in SupportedDecls(t) : HasFile(t, <<n>>) /\ FileAt(t, <<n>>).ok = "loose"

\* fixity entries of a valid inventory: <<alg, digest token, path>>
FixEntries(j) ==
  IF ~Has(j, "fixity") THEN {}
  ELSE LET f == Get(j, "fixity").v IN
    UNION {UNION {{<<i, k, x>> : x \in DOMAIN f[i].w.v[k].w.v} : k \in DOMAIN f[i].w.v} : i \in DOMAIN f}
FixAlg(j, e) == Get(j, "fixity").v[e[1]].k
FixDig(j, e) == Get(j, "fixity").v[e[1]].w.v[e[2]].d
FixPath(j, e) == Get(j, "fixity").v[e[1]].w.v[e[2]].w.v[e[3]].g
ManPos(j) == UNION {{<<i, k>> : k \in DOMAIN ManEntries(j)[i].w.v} : i \in DOMAIN ManEntries(j)}

\* Content of the object against valid inventory j (the root) and the valid
\* earlier inventories: manifest entries of all, fixity entries of all
ContentPart(t, rr, j, priors, dig) ==
  LET vs == Rng(rr.order)
      cds == {<<v, rr.cd>> : v \in vs}
      seen == {i \in DOMAIN t.files : \E d \in cds : Under(t.files[i].p, d)}
      seenPaths == {t.files[i].p : i \in seen}
      C(g) == FileAt(t, g).c
      rootPaths == ManPaths(j)
      BadMan(q, alg) == \E x \in ManPos(q) :
           LET g == ManEntries(q)[x[1]].w.v[x[2]].g IN
             g \in rootPaths /\ g \in seenPaths /\ alg \in KnownAlgs /\ ~TrueDigest(alg, ManEntries(q)[x[1]].d, C(g))
      BadFix(q) == \E e \in FixEntries(q) :
           LET g == FixPath(q, e) IN
             g \in rootPaths /\ g \in seenPaths /\ FixAlg(q, e) \in KnownAlgs /\ ~TrueDigest(FixAlg(q, e), FixDig(q, e), C(g))
  IN (IF seenPaths \ rootPaths # {} THEN {{"E023"}} ELSE {})
     \cup (IF rootPaths \ seenPaths # {} THEN {{"E092"}} ELSE {})
     \cup (IF \E e \in FixEntries(j) : FixPath(j, e) \notin seenPaths THEN {{"E093"}} ELSE {})
     \cup (IF dig /\ (BadMan(j, rr.alg) \/ \E q \in DOMAIN priors : BadMan(priors[q].j, priors[q].r.alg)) THEN {{"E092"}} ELSE {})
     \cup (IF dig /\ (BadFix(j) \/ \E q \in DOMAIN priors : BadFix(priors[q].j)) THEN {{"E093"}} ELSE {})
     \cup (IF \E i \in DOMAIN t.dirs : (\E d \in cds : Under(t.dirs[i].p, d))
                 /\ (\A k \in DOMAIN t.files : ~Under(t.files[k].p, t.dirs[i].p))
                 /\ (\A k \in DOMAIN t.dirs : ~Under(t.dirs[k].p, t.dirs[i].p))
           THEN {{"E024"}} ELSE {})

\* Version directories, apart from inventories and content
VersionDirPart(t, rr, invAlg) ==
  LET Allowed(v) == {<<v, "inventory.json">>} \cup
                    (IF invAlg[v] # "" THEN {<<v, SideName(invAlg[v])>>} ELSE {})
  IN (IF \E v \in Rng(rr.order) : ~HasDir(t, <<v>>) THEN {{"E046"}} ELSE {})
     \cup (IF \E v \in Rng(rr.order) : HasFile(t, <<v>>) THEN {{"E001", "E046", "E015"}} ELSE {})
     \cup (IF \E v \in Rng(rr.order) : \E i \in DOMAIN t.files :
                 Len(t.files[i].p) = 2 /\ t.files[i].p[1] = v /\ t.files[i].p \notin Allowed(v)
                 /\ ~(invAlg[v] = "" /\ t.files[i].k = "side")
           THEN {{"E015"}} ELSE {})

RootDirPart(t, rr) ==
  LET okFiles == {"inventory.json", SideName(rr.alg)} \cup DeclNames(t)
      vkeys == Rng(rr.order)
  IN (IF \E i \in RootFiles(t) : t.files[i].p[1] \notin okFiles THEN {{"E001"}} ELSE {})
     \cup (IF \E i \in RootDirs(t) : t.dirs[i].p[1] \notin (vkeys \cup {"logs", "extensions"}) /\ ~t.dirs[i].v
           THEN {{"E001"}} ELSE {})
     \cup (IF rr.seqok /\ \E i \in RootDirs(t) : t.dirs[i].p[1] \notin vkeys /\ t.dirs[i].v THEN {{"E046"}} ELSE {})
     \cup (IF HasDir(t, <<"extensions">>) /\ \E i \in DOMAIN t.files : Len(t.files[i].p) = 2 /\ t.files[i].p[1] = "extensions"
           THEN {{"E067"}} ELSE {})

InvDefect(t, d) == HasDir(t, d \o <<"inventory.json">>)

ObjRes(t, lax, dig, dflt) ==
  LET decl == DeclPart(t)
      dspec == DeclSpec(t)
      spec0 == IF dspec = "none" THEN dflt ELSE dspec
      forced == IF Cardinality(DeclNames(t)) = 1 /\ dspec # "none" THEN dspec ELSE ""
  IN IF HasDir(t, <<"inventory.json">>)
     THEN [must |-> decl \cup {{"E033", "E063", "E001"}}, may |-> {}, wild |-> FALSE, unspec |-> FALSE]
     ELSE IF ~HasFile(t, <<"inventory.json">>)
     THEN [must |-> decl \cup {{"E063"}}, may |-> {}, wild |-> FALSE, unspec |-> FALSE]
     ELSE
     LET j == FileAt(t, <<"inventory.json">>).j IN
     IF ~IsObj(j) THEN [must |-> decl \cup {{"E033"}}, may |-> {}, wild |-> FALSE, unspec |-> FALSE]
     ELSE
     LET rr == InvRes(j, lax, forced, spec0)
         rvalid == rr.must = {}
         ord == rr.order
         last == IF ord = <<>> THEN "" ELSE ord[Len(ord)]
         \* earlier version directories that have an inventory
         pv == SelectSeq(ord, LAMBDA v : v # last /\ HasEntry(t, <<v, "inventory.json">>))
         pj == TLCEval([i \in DOMAIN pv |-> IF HasDir(t, <<pv[i], "inventory.json">>) THEN [t |-> "x"] ELSE FileAt(t, <<pv[i], "inventory.json">>).j])
         pr == TLCEval([i \in DOMAIN pv |-> InvRes(pj[i], lax, "", spec0)])
         good == {i \in DOMAIN pv : IsObj(pj[i])}
         pvalid == TLCEval({i \in good : pr[i].must = {}})
         priors == TLCEval([i \in pvalid |-> [j |-> pj[i], r |-> pr[i]]])
         invs == UNION {pr[i].must : i \in DOMAIN pv}
         sideroot == IF rr.wild THEN {} ELSE SidePart(t, <<>>, rr.alg, dig)
         sides == UNION {IF pr[i].wild THEN {} ELSE SidePart(t, <<pv[i]>>, pr[i].alg, dig) : i \in good}
         lastInv == last # "" /\ HasEntry(t, <<last, "inventory.json">>)
         lastSame == lastInv /\ HasFile(t, <<last, "inventory.json">>)
                     /\ FileAt(t, <<last, "inventory.json">>).c = FileAt(t, <<"inventory.json">>).c
         lastPart == IF ~lastInv THEN {}
                     ELSE IF ~lastSame THEN {{"E064"}}
                     ELSE IF rr.wild THEN {} ELSE SidePart(t, <<last>>, rr.alg, dig)
         ids == IF Has(j, "id") /\ IsStr(Get(j, "id")) /\ Get(j, "id").v # "" /\
                   \E i \in good : Has(pj[i], "id") /\ (~IsStr(Get(pj[i], "id")) \/ Get(pj[i], "id").v # Get(j, "id").v)
                THEN {{"E037"}} ELSE {}
         cds == IF \E i \in good : pr[i].cd # rr.cd THEN {{"E019", "E020"}} ELSE {}
         cdOpen == \E i \in good : pr[i].cdset # rr.cdset /\ pr[i].cd = rr.cd
         contra == IF rvalid /\ \E i \in pvalid : Contradicts(j, pj[i], rr.alg, pr[i].alg, rr.order, pr[i].order)
                   THEN {{"E066"}} ELSE {}
         dropped == IF \E a \in pvalid : \E b \in pvalid : a < b /\ ~(ManPaths(pj[a]) \subseteq ManPaths(pj[b]))
                    THEN {{"E023"}} ELSE {}
         specs == [i \in DOMAIN pv |-> pr[i].spec]
         lower == IF \/ \E a \in good : \E b \in good : a < b /\ SpecNum(specs[a]) > SpecNum(specs[b])
                     \/ lastInv /\ \E a \in good : SpecNum(specs[a]) > SpecNum(spec0)
                  THEN {{"E103"}} ELSE {}
         lowerMay == IF \E i \in DOMAIN pv : ~pr[i].specsure THEN {"E103"} ELSE {}
         \* the head named by an earlier inventory is not its own directory: not judged
         headOpen == \E i \in pvalid : pr[i].order # SubSeq(ord, 1, Len(pr[i].order)) \/
                        (Len(pr[i].order) > 0 /\ pr[i].order[Len(pr[i].order)] # pv[i] /\ Len(pr[i].order) < Len(ord))
         invAlg == TLCEval([v \in Rng(ord) |->
                      IF v = last THEN (IF lastInv THEN rr.alg ELSE "")
                      ELSE IF \E i \in DOMAIN pv : pv[i] = v
                           THEN pr[CHOOSE i \in DOMAIN pv : pv[i] = v].alg ELSE ""])
         orphanSide == \E v \in Rng(ord) : invAlg[v] = "" /\ \E i \in DOMAIN t.files :
                          Len(t.files[i].p) = 2 /\ t.files[i].p[1] = v /\ t.files[i].k = "side"
         structure == RootDirPart(t, rr) \cup VersionDirPart(t, rr, invAlg)
         content == IF rvalid THEN ContentPart(t, rr, j, priors, dig) ELSE {}
         unknownAlg == lax /\ ((~rr.wild /\ rr.alg \notin KnownAlgs) \/ \E i \in good : ~pr[i].wild /\ pr[i].alg \notin KnownAlgs)
         algMay == IF ~rr.algsure \/ \E i \in good : ~pr[i].algsure THEN {"E058", "E060", "E061", "E001", "E015"} ELSE {}
         sideMay == IF lastInv /\ ~lastSame THEN {"E058", "E060", "E061", "E015"} ELSE {}
         privMay == UNION {pr[i].may : i \in DOMAIN pv}
         must == decl \cup rr.must \cup invs \cup sideroot \cup sides \cup lastPart \cup ids \cup cds \cup contra
                 \cup dropped \cup lower \cup structure \cup content
         may == rr.may \cup privMay \cup algMay \cup sideMay \cup lowerMay
                \cup (IF contra # {} \/ dropped # {} \/ cds # {} \/ cdOpen THEN {"E066", "E023", "E019", "E020", "E092"} ELSE {})
                \cup (IF orphanSide THEN {"E015"} ELSE {})
                \cup (IF DeclOpen(t) THEN {"E007"} ELSE {})
                \cup (IF headOpen THEN {"E066"} ELSE {})
                \cup (IF ~rr.wild /\ SideOpen(t, <<>>, rr.alg, dig) THEN {"E060"} ELSE {})
                \cup (IF unknownAlg THEN {"E061", "E060"} ELSE {})
     IN [must |-> must, may |-> may,
         wild |-> rr.wild \/ \E i \in DOMAIN pv : pr[i].wild,
         unspec |-> must = {} /\ (rr.unspec \/ (\E i \in DOMAIN pv : pr[i].unspec) \/ DeclOpen(t) \/ cdOpen \/ headOpen \/ orphanSide
                    \/ (~rr.wild /\ SideOpen(t, <<>>, rr.alg, dig))
                    \/ unknownAlg)]
Valid(t, lax, dig, dflt) == ObjRes(t, lax, dig, dflt).must = {}
=============================================================================
