------------------------------ MODULE OcflWarn ------------------------------
(***************************************************************************)
(* The recommendations (SHOULD) of OCFL 1.0/1.1 for inventories and        *)
(* objects which break no rule (OcflRules), and the warnings a validator   *)
(* gives for them.  A warning is a record [c |-> code, at |-> name of the  *)
(* version directory or entry it is about, or ""].                         *)
(***************************************************************************)
EXTENDS OcflRules

W(c, at) == [c |-> c, at |-> at]

\* tagged JSON values are the same, whatever the order of the keys
RECURSIVE SameJ(_, _)
SameJ(a, b) ==
  IF a.t # b.t THEN FALSE
  ELSE CASE a.t = "s" -> a.v = b.v
         [] a.t \in {"b", "n", "z"} -> a.v = b.v
         [] a.t = "a" -> Len(a.v) = Len(b.v) /\ \A i \in DOMAIN a.v : SameJ(a.v[i], b.v[i])
         [] OTHER -> Len(a.v) = Len(b.v) /\ \A i \in DOMAIN a.v : Has(b, a.v[i].k) /\ SameJ(a.v[i].w, Get(b, a.v[i].k))

\* --- inventory j, broken by no rule ---
UriWarn(w, code) == IF w.uri = "no" THEN {W(code, "")} ELSE {}
BlockWarn(b, v) ==
  (IF ~Has(b, "message") THEN {W("W007", v)} ELSE {})
  \cup (IF ~Has(b, "user") THEN {W("W007", v)}
        ELSE LET u == Get(b, "user") IN
          IF ~Has(u, "address") THEN {W("W008", v)}
          ELSE IF Get(u, "address").uri = "no" THEN {W("W009", v)} ELSE {})
InvWarn(j, lax) ==
  UriWarn(Get(j, "id"), "W005")
  \cup (IF Get(j, "digestAlgorithm").v # "sha512" /\ ~lax THEN {W("W004", "")} ELSE {})
  \cup (IF \E i \in DOMAIN VEntries(j) : VEntries(j)[i].vn.w > 0 THEN {W("W001", "")} ELSE {})
  \cup UNION {BlockWarn(VEntries(j)[i].w, VEntries(j)[i].k) : i \in DOMAIN VEntries(j)}
\* which of these are left open (by code): names that may or may not be URIs
InvOpen(j, lax) ==
  (IF Get(j, "id").uri = "open" THEN {"W005"} ELSE {})
  \cup (IF lax /\ Get(j, "digestAlgorithm").v # "sha512" THEN {"W004"} ELSE {})
  \cup (IF \E i \in DOMAIN VEntries(j) : LET b == VEntries(j)[i].w IN
              Has(b, "user") /\ Has(Get(b, "user"), "address") /\ Get(Get(b, "user"), "address").uri = "open"
        THEN {"W009"} ELSE {})

\* --- metadata of the versions of an earlier inventory p against the root r ---
MetaDiffers(r, p, v) == \E k \in {"created", "message", "user"} :
  LET a == VersionBlock(r, v)
      b == VersionBlock(p, v)
  IN Has(a, k) # Has(b, k) \/ (Has(a, k) /\ ~SameJ(Get(a, k), Get(b, k)))
MetaWarn(r, p, po) == {W("W011", v) : v \in {v \in Rng(po) : MetaDiffers(r, p, v)}}

\* --- the directory ---
Registered == {"0001-digest-algorithms", "0002-flat-direct-storage-layout", "0003-hash-and-id-n-tuple-storage-layout",
               "0004-hashed-n-tuple-storage-layout", "0005-mutable-head"}
DirWarn(t, rr) ==
  LET vs == Rng(rr.order)
      In(d) == {t.dirs[i].p[2] : i \in {i \in DOMAIN t.dirs : Len(t.dirs[i].p) = 2 /\ t.dirs[i].p[1] = d}}
      Holds(d) == \E i \in DOMAIN t.files : Under(t.files[i].p, d)
  IN UNION {{W("W002", e) : e \in In(v) \ {rr.cd}} : v \in vs}
     \cup {W("W003", v) : v \in {v \in vs : rr.cd \in In(v) /\ ~Holds(<<v, rr.cd>>)}}
     \cup {W("W010", v) : v \in {v \in vs : ~HasFile(t, <<v, "inventory.json">>)}}
     \cup {W("W013", e) : e \in {e \in In("extensions") : e \notin Registered}}
\* names which later revisions of the list of extensions have, or may have
DirOpen(t) == IF \E i \in DOMAIN t.dirs : Len(t.dirs[i].p) = 2 /\ t.dirs[i].p[1] = "extensions"
                    /\ t.dirs[i].ext = "open" THEN {"W013"} ELSE {}

\* --- an object broken by no rule ---
ObjWarn(t, lax) ==
  LET j == FileAt(t, <<"inventory.json">>).j
      rr == InvRes(j, lax, "", "1.1")
      last == rr.order[Len(rr.order)]
      pv == {v \in Rng(rr.order) : v # last /\ HasFile(t, <<v, "inventory.json">>)}
      J(v) == FileAt(t, <<v, "inventory.json">>).j
      PR(v) == InvRes(J(v), lax, "", "1.1")
  IN [must |-> InvWarn(j, lax) \cup DirWarn(t, rr)
               \cup UNION {InvWarn(J(v), lax) \cup MetaWarn(j, J(v), PR(v).order) : v \in pv},
      open |-> InvOpen(j, lax) \cup DirOpen(t) \cup UNION {InvOpen(J(v), lax) : v \in pv}]

(***************************************************************************)
(* What a validator says: o.wcodes the warnings by code, o.num how many,   *)
(* o.msgs the messages that were logged, each with its code and the set of *)
(* words in it, o.logged whether warnings were to be logged                *)
(***************************************************************************)
Places == {"W002", "W003", "W010", "W011", "W013"}
WarnClauses(w, o) ==
  LET codes == Rng(o.wcodes)
      must == {x.c : x \in w.must}
      logged == {i \in DOMAIN o.msgs : SubSeq(o.msgs[i].c, 1, 1) = "W"}
      Says(i, x) == o.msgs[i].c = x.c /\ x.at \in Rng(o.msgs[i].words)
  IN (IF ~(must \ w.open \subseteq codes) THEN {"warning-missing"} ELSE {})
     \cup (IF ~(codes \subseteq must \cup w.open) THEN {"warning-wrong"} ELSE {})
     \cup (IF (o.num = 0) # (codes = {}) THEN {"warnings-miscounted"} ELSE {})
     \cup (IF ~o.logged /\ logged # {} THEN {"warning-logged-unasked"} ELSE {})
     \cup (IF o.logged /\ {o.msgs[i].c : i \in logged} # codes THEN {"warning-not-logged"} ELSE {})
     \cup (IF o.logged /\ \E x \in w.must : x.c \in Places /\ x.c \notin w.open /\ x.at # "" /\ ~\E i \in logged : Says(i, x)
           THEN {"place-not-named"} ELSE {})
     \cup (IF o.logged /\ \E i \in logged : o.msgs[i].c \in Places \ w.open /\ ~\E x \in w.must : Says(i, x)
           THEN {"wrong-place"} ELSE {})
=============================================================================
