----------------------------- MODULE OcflSteps -----------------------------
(***************************************************************************)
(* The life of one OCFL object, declaratively.                             *)
(*                                                                         *)
(* An object directory is a tree as in OcflRules (or Absent).  A step is   *)
(* an event e applied to a state s = [t |-> tree, st |-> staged versions]  *)
(* with an outcome e.res:                                                  *)
(*    "ok"       done                                                      *)
(*    "none"     done, there was nothing to do (no new version)            *)
(*    "refused"  refused                                                   *)
(* Broken(s, e) is the set of clauses, named after the properties, which   *)
(* the step breaks; After(s, e) is the state after it.  The same operators *)
(* judge the steps of the constructive model (OcflObject) and those        *)
(* recorded from the code (LifeJudge).                                     *)
(***************************************************************************)
EXTENDS OcflRules

Absent == [files |-> <<>>, dirs |-> <<>>, absent |-> TRUE]
IsAbsent(t) == "absent" \in DOMAIN t

(***************************************************************************)
(* Reading an object                                                       *)
(***************************************************************************)
InvPath == <<"inventory.json">>
HasInv(t) == ~IsAbsent(t) /\ HasFile(t, InvPath) /\ IsObj(FileAt(t, InvPath).j)
RJ(t) == FileAt(t, InvPath).j
VersOf(j) == IF SeqOK(j) THEN VersionOrder(j) ELSE <<>>
HeadOf(t) == LET o == VersOf(RJ(t)) IN o[Len(o)]
AlgOf(t) == Get(RJ(t), "digestAlgorithm").v
CdOf(t) == InvCd(RJ(t))
SpecOf(t) == SpecOfType(Get(RJ(t), "type").v)
\* A tree may carry what has been worked out about it already (an): the
\* result of validation, path -> bytes, digest -> bytes
An(t) == "an" \in DOMAIN t
Res(t, lax, dig) == IF An(t) /\ t.an.lax = lax /\ (dig \/ t.an.r.must = {}) THEN t.an.r ELSE ObjRes(t, lax, dig, "1.1")
InvGood(t, lax) == HasInv(t) /\ (IF An(t) /\ t.an.lax = lax /\ t.an.r.must = {} THEN TRUE ELSE InvRes(RJ(t), lax, "", "1.1").must = {})
FileMap(t) == IF An(t) THEN t.an.fm ELSE TLCEval([p \in {t.files[i].p : i \in DOMAIN t.files} |-> FileAt(t, p).c])
\* digest -> content of the first file with it, through the manifest
DigMap(t) ==
  LET m == ManEntries(RJ(t))
      f == FileMap(t)
      One(i) == LET ps == {k \in DOMAIN m[i].w.v : m[i].w.v[k].g \in DOMAIN f}
                IN IF ps = {} THEN "?" ELSE f[m[i].w.v[CHOOSE k \in ps : TRUE].g]
  IN TLCEval([n \in {m[i].d.n : i \in DOMAIN m} |-> One(CHOOSE i \in DOMAIN m : m[i].d.n = n)])
Annotated(t, lax) ==
  IF IsAbsent(t) THEN t
  ELSE LET fm == FileMap(t)
           r == ObjRes(t, lax, TRUE, "1.1")
       IN TLCEval(t @@ [an |-> [lax |-> lax, fm |-> fm, r |-> r, dm |-> IF HasInv(t) /\ r.must = {} THEN DigMap(t) ELSE <<>>]])
\* logical path -> content, as read through manifest and stored files
MapAt(t, v) ==
  LET j == RJ(t)
      es == StateOf(j, v)
      dm == IF An(t) /\ t.an.r.must = {} THEN t.an.dm ELSE DigMap(t)
      pairs == UNION {{<<es[i].w.v[k].g, IF es[i].d.n \in DOMAIN dm THEN dm[es[i].d.n] ELSE "?">> : k \in DOMAIN es[i].w.v} : i \in DOMAIN es}
  IN TLCEval([g \in {x[1] : x \in pairs} |-> (CHOOSE x \in pairs : x[1] = g)[2]])
\* metadata: "none" or "=" followed by the value
Opt(o, k) == IF Has(o, k) /\ IsStr(Get(o, k)) THEN "=" \o Get(o, k).v ELSE "none"
MetaAt(j, v) ==
  LET b == VersionBlock(j, v)
      u == IF Has(b, "user") /\ IsObj(Get(b, "user")) THEN Get(b, "user") ELSE [t |-> "o", v |-> <<>>]
  IN [created |-> Opt(b, "created"), message |-> Opt(b, "message"), name |-> Opt(u, "name"), address |-> Opt(u, "address")]
\* fixity as <<algorithm, path>>
FixSet(j) == {<<FixAlg(j, e), FixPath(j, e)>> : e \in FixEntries(j)}

FixSet0(t) == IF HasInv(t) /\ Has(RJ(t), "fixity") /\ IsObj(Get(RJ(t), "fixity")) THEN Rng(Get(RJ(t), "fixity").v) ELSE {}

\* Is the object acceptable as the base of a new version (digests not checked)
BaseOK(t, lax) == HasInv(t) /\ LET r == Res(t, lax, FALSE) IN r.must = {} /\ ~r.unspec
BaseBad(t, lax) == IF IsAbsent(t) THEN TRUE ELSE Res(t, lax, FALSE).must # {}
Sound(t) == (An(t) /\ t.an.r.must = {}) \/ ObjRes(t, TRUE, TRUE, "1.1").must = {}

(***************************************************************************)
(* Paths and maps                                                          *)
(***************************************************************************)
Legal(g) == g # <<>> /\ ~HasBad(g)
Clash(g, P) == \E q \in P : ProperPrefix(g, q) \/ ProperPrefix(q, g)
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
With(f, x, c) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN c ELSE f[y]]
EmptyMap == [x \in {} |-> ""]
SrcMap(src) == TLCEval([p \in {src[i].p : i \in DOMAIN src} |-> src[CHOOSE i \in DOMAIN src : src[i].p = p].c])

\* name of version n in the form of the given versions (width 0: plain)
PadOf(t) == LET vs == VEntries(RJ(t)) IN vs[1].vn.w
CountOf(t) == Len(VEntries(RJ(t)))
Exhausted(t) == PadOf(t) > 0 /\ CountOf(t) + 1 >= Pow10(PadOf(t) - 1)

(***************************************************************************)
(* Clauses about a newly written version                                   *)
(* s.t -> e.t, new state map m, adds = <<[p, c, n, cp]>> the files added   *)
(***************************************************************************)
Cl(name, ok) == IF ok THEN {} ELSE {name}

\* everything below version directories is as before, the root keeps its other files
Kept(t, u, newv) ==
  LET a == FileMap(t)
      b == FileMap(u)
      old == DOMAIN a
  IN /\ \A p \in old : Len(p) > 1 => (p \in DOMAIN b /\ b[p] = a[p])
     /\ \A p \in DOMAIN b \ old : Len(p) > 1 => p[1] = newv
     /\ \A p \in {q \in DOMAIN b : Len(q) > 1 /\ q[1] = newv} : p \notin old
     /\ \A i \in DOMAIN t.dirs : HasDir(u, t.dirs[i].p)
     /\ \A i \in DOMAIN u.dirs : HasDir(t, u.dirs[i].p) \/ u.dirs[i].p[1] = newv
RootKept(t, u) ==
  LET a == FileMap(t)
      b == FileMap(u)
      inv(p) == p[1] = "inventory.json" \/ \E alg \in {AlgOf(t), AlgOf(u)} : p[1] = SideName(alg)
  IN \A p \in DOMAIN a \cup DOMAIN b : Len(p) = 1 /\ ~inv(p) => (p \in DOMAIN a /\ p \in DOMAIN b /\ a[p] = b[p])
SameTree(t, u) == IF IsAbsent(t) \/ IsAbsent(u) THEN IsAbsent(t) = IsAbsent(u) ELSE t.files = u.files /\ t.dirs = u.dirs

OldVersionsKept(t, u) ==
  LET vo == VersOf(RJ(t)) IN
    /\ Len(VersOf(RJ(u))) >= Len(vo)
    /\ \A k \in DOMAIN vo :
         LET v == vo[k] IN
           /\ VersOf(RJ(u))[k] = v
           /\ MapAt(u, v) = MapAt(t, v)
           /\ MetaAt(RJ(u), v) = MetaAt(RJ(t), v)

MetaMatches(want, got) ==
  /\ want.created # "none" => got.created = want.created
  /\ got.created # "none"
  /\ got.message = want.message /\ got.name = want.name /\ got.address = want.address

\* content stored in the new version against the settings; exact = FALSE
\* when added files were deleted again
NewFiles(t, u, newv) ==
  LET old == IF IsAbsent(t) THEN {} ELSE {t.files[i].p : i \in DOMAIN t.files}
  IN {p \in {u.files[i].p : i \in DOMAIN u.files} : p[1] = newv /\ Len(p) > 2 /\ p \notin old}
OldContents(t) == IF IsAbsent(t) THEN {} ELSE {FileAt(t, p).c : p \in {q \in ManPaths(RJ(t)) : HasFile(t, q)}}
Policy(t, u, newv, cd, fwd, dedupe, m, adds, exact) ==
  LET nf == NewFiles(t, u, newv)
      C(p) == FileAt(u, p).c
      prev == OldContents(t)
      used == {m[g] : g \in DOMAIN m}
      Adds(c) == {i \in DOMAIN adds : adds[i].c = c}
      Copies(c) == Cardinality({p \in nf : C(p) = c})
      \* the new content paths by the normalisation
      taken == {p \in nf : TRUE} \cup (IF IsAbsent(t) THEN {} ELSE ManPaths(RJ(t)))
      base == <<newv, cd>>
      PathOK(p) == \E i \in Adds(C(p)) :
                      IF adds[i].cp # <<>> THEN p = adds[i].cp
                      ELSE \/ p = base \o adds[i].n
                           \* otherwise it was not free, a path beside it is used
                           \/ (~exact \/ \E q \in taken : q # p /\ q = base \o adds[i].n)
                              /\ Len(p) = Len(base \o adds[i].n) /\ SubSeq(p, 1, Len(p) - 1) = SubSeq(base \o adds[i].n, 1, Len(p) - 1)
  IN Cl("C06.content-outside-content-directory", \A p \in nf : Under(p, base))
     \cup Cl("C06.stored-again", ~fwd \/ \A p \in nf : C(p) \notin prev)
     \cup Cl("C06.several-copies", ~dedupe \/ \A p \in nf : \A q \in nf : C(p) = C(q) => p = q)
     \cup Cl("C06.not-one-copy-per-file",
              \A c \in {adds[i].c : i \in DOMAIN adds} \cap used :
                 LET n == Cardinality(Adds(c)) IN
                   IF fwd /\ c \in prev THEN TRUE
                   ELSE IF dedupe THEN Copies(c) = 1
                   ELSE IF exact THEN Copies(c) = n ELSE Copies(c) \in 1..n)
     \cup Cl("C06.content-path", \A p \in nf : PathOK(p))

\* the object u written as the next version of t (Absent: first version)
Written(t, u, e, newv, w) ==
  IF ~IsAbsent(t) /\ ~Sound(t)   \* damage to the content of the base may have gone unnoticed
  THEN Cl("C03.version-directories", Kept(t, u, newv)) \cup Cl("C03.object-root", HasInv(u) => RootKept(t, u))
  ELSE
  LET j == RJ(u)
      r == Res(u, w.lax, TRUE)
  IN Cl("C01.invalid", r.must = {} /\ ~r.unspec)
     \cup Cl("C01.library-says-invalid", e.lib.v = "valid" /\ e.lib.codes = <<>>)
     \cup Cl("C19.invalid", r.must = {} \/ (FixSet0(u) = {} /\ (IsAbsent(t) \/ AlgOf(t) = w.alg)))
     \cup (IF ~InvGood(u, w.lax) THEN {"C01.no-usable-inventory"}
     ELSE
     Cl("C01.no-head-inventory", HasFile(u, <<HeadOf(u), "inventory.json">>))
     \cup Cl("C01.identifier", Get(j, "id").v = w.id)
     \cup Cl("C17.version-number", HeadOf(u) = newv)
     \cup (IF HeadOf(u) # newv THEN {} ELSE
       Cl("C02.content", MapAt(u, newv) = w.map)
       \cup Cl("C02.metadata", MetaMatches(w.meta, MetaAt(j, newv)))
       \cup Policy(t, u, newv, w.cd, w.fwd, w.dedupe, w.map, w.adds, w.exact))
     \cup Cl("C23.specification-version", SpecOf(u) = w.spec /\ DeclNames(u) = {DeclName(w.spec)})
     \cup Cl("C19.digest-algorithm", AlgOf(u) = w.alg)
     \cup Cl("C06.content-directory", CdOf(u) = w.cd)
     \cup Cl("C19.sidecars", {p \in {u.files[i].p : i \in DOMAIN u.files} : Len(p) = 1 /\ FileAt(u, p).k = "side"} = {<<SideName(w.alg)>>})
     \cup Cl("C19.fixity", {x \in FixSet(j) : x[2][1] # newv} = w.fix)
     \cup (IF IsAbsent(t) THEN {} ELSE
       Cl("C03.version-directories", Kept(t, u, newv))
       \cup Cl("C01.earlier-inventories", \A v \in Rng(VersOf(RJ(t))) : HasFile(t, <<v, "inventory.json">>) => HasFile(u, <<v, "inventory.json">>))
       \cup Cl("C03.object-root", RootKept(t, u))
       \cup Cl("C02.earlier-versions", OldVersionsKept(t, u))
       \cup Cl("C03.earlier-versions", OldVersionsKept(t, u))
       \cup Cl("C19.earlier-versions", AlgOf(t) = AlgOf(u) \/ OldVersionsKept(t, u))
       \cup Cl("C23.lowered", SpecNum(SpecOf(u)) >= SpecNum(SpecOf(t)))))

Unchanged(s, e) == Cl("C03.changed-by-refused-operation", SameTree(s.t, e.t))
Quiet(s, e) == Cl("C03.changed-by-reading", SameTree(s.t, e.t))
\* acc, ref: the clauses broken by a wrong acceptance, a wrong refusal
Refusal(acc, ref, must, may, e) ==
  (IF must /\ e.res # "refused" THEN acc ELSE {}) \cup (IF ~must /\ ~may /\ e.res = "refused" THEN ref ELSE {})
Other(e) == Cl("C22.traceback", "tb" \notin DOMAIN e \/ ~e.tb)
            \cup Cl("C16.wrote-elsewhere", ~(e.op \in {"extract", "extractfile"} /\ e.elsewhere))
            \cup Cl("C03.wrote-elsewhere", ~(e.op \notin {"extract", "extractfile"} /\ e.elsewhere))

(***************************************************************************)
(* Expected fixity of the next version (of content in earlier versions)    *)
(***************************************************************************)
NextFix(t, newalg, fixset, fixalgs) ==
  LET old == FixSet(RJ(t)) IN
  IF ~fixset
  THEN IF newalg = AlgOf(t) THEN old ELSE {x \in old : x[1] # AlgOf(t)} \cup {<<AlgOf(t), p>> : p \in ManPaths(RJ(t))}
  ELSE {x \in old : x[1] \in Rng(fixalgs)}

MetaOK(m) == /\ m.created = "none" \/ TimestampOK(m.ts)
             /\ (m.address # "none" => m.name # "none")
MetaOpen(m) == m.created # "none" /\ TimestampOpen(m.ts)
AddsOf(src) == TLCEval([i \in DOMAIN src |-> [c |-> src[i].c, n |-> src[i].n, cp |-> <<>>]])

\* version directory names
Digits(n) == CASE n < 10 -> 1 [] n < 100 -> 2 [] n < 1000 -> 3 [] n < 10000 -> 4 [] OTHER -> 5
RECURSIVE Zeros(_)
Zeros(k) == IF k <= 0 THEN "" ELSE "0" \o Zeros(k - 1)
VName(n, w) == "v" \o (IF w = 0 THEN "" ELSE Zeros(w - Digits(n))) \o ToString(n)
NextV(t) == VName(CountOf(t) + 1, PadOf(t))

(***************************************************************************)
(* Creating: create (one version), build (several)                         *)
(***************************************************************************)
Norms == {"uri", "md5", "none"}
Occupied(t) == ~IsAbsent(t) /\ (t.files # <<>> \/ t.dirs # <<>> \/ "file" \in DOMAIN t)
CfgBad(e) == e.id = "" \/ e.spec \notin SpecVersions \/ e.cd \in {"", ".", ".."} \/ e.cdslash
             \/ (e.norm \notin Norms /\ \E k \in DOMAIN e.srcs : e.srcs[k] # <<>>)
             \/ (e.alg \notin KnownAlgs /\ \E k \in DOMAIN e.srcs : e.srcs[k] # <<>>)
CfgOpen(e) == e.alg \notin KnownAlgs \/ e.norm \notin Norms
CreateMust(s, e) == CfgBad(e) \/ (~e.dry /\ Occupied(s.t)) \/ e.srcs = <<>> \/ \E i \in DOMAIN e.metas : ~MetaOK(e.metas[i]) /\ ~MetaOpen(e.metas[i])
CreateMay(s, e) == CfgOpen(e) \/ \E i \in DOMAIN e.metas : MetaOpen(e.metas[i])
\* what version n of a new object with the given sources should be
RECURSIVE BuildOK(_, _, _)
Want(e, n) == [id |-> e.id, map |-> SrcMap(e.srcs[n]), meta |-> e.metas[n], alg |-> e.alg, cd |-> e.cd, spec |-> e.spec, lax |-> e.alg \notin ContentAlgs,
               fwd |-> e.fwd, dedupe |-> e.dedupe, adds |-> AddsOf(e.srcs[n]), exact |-> TRUE, fix |-> {}]
\* the object as it was after version n: without the later versions
Upto(t, n) ==
  LET o == VersOf(RJ(t))
      later == {o[k] : k \in {k \in DOMAIN o : k > n}}
      inv == IF n = Len(o) THEN InvPath ELSE <<o[n], "inventory.json">>
      keep(p) == IF Len(p) > 1 THEN p[1] \notin later ELSE FALSE
      fs == SelectSeq(t.files, LAMBDA f : keep(f.p))
  IN [files |-> (IF HasFile(t, inv) THEN <<[FileAt(t, inv) EXCEPT !.p = InvPath]>> ELSE <<>>) \o fs,
      dirs |-> SelectSeq(t.dirs, LAMBDA d : d.p[1] \notin later)]
BuildOK(u, e, n) ==   \* clauses about versions 1..n-1 of a built object
  IF n = 0 THEN {}
  ELSE LET v == VersOf(RJ(u))[n]
           a == IF n = 1 THEN Absent ELSE Upto(u, n - 1)
           b == Upto(u, n)
           w == Want(e, n)
       IN Cl("C02.content", MapAt(u, v) = w.map)
          \cup Cl("C02.metadata", MetaMatches(w.meta, MetaAt(RJ(u), v)))
          \cup Cl("C01.no-version-inventory", HasInv(b))
          \cup (IF HasInv(b) /\ (n = 1 \/ HasInv(a)) THEN Policy(a, b, v, w.cd, w.fwd, w.dedupe, w.map, w.adds, TRUE) ELSE {})
          \cup BuildOK(u, e, n - 1)
StepCreate(s, e) ==
  LET N == Len(e.srcs) IN
  Refusal({"C01.create-accepted"} \cup Cl("C03.create-over-existing", ~Occupied(s.t) \/ e.dry)
             \cup Cl("C23.create-accepted", e.spec \in SpecVersions) \cup Cl("C06.create-accepted", e.cd \notin {"", ".", ".."} /\ ~e.cdslash),
          {"C01.create-refused", "C02.create-refused"} \cup Cl("C17.create-refused", N < 2), CreateMust(s, e), CreateMay(s, e), e)
  \cup (IF e.dry THEN Quiet(s, e) \cup (IF e.res = "ok" THEN Cl("C02.dry-run", Len(e.dryvers) = N /\ \A n \in 1..N : SrcMap(e.dryvers[n]) = SrcMap(e.srcs[n])) ELSE {})
        ELSE IF e.res = "ok"
        THEN IF CreateMust(s, e) THEN {} ELSE
             (Written(IF N > 1 /\ HasInv(e.t) /\ Len(VersOf(RJ(e.t))) = N /\ HasInv(Upto(e.t, N - 1)) THEN Upto(e.t, N - 1) ELSE Absent,
                     e.t, e, VName(N, 0), Want(e, N)) \ (IF N > 1 THEN {"C03.object-root"} ELSE {}))
             \cup (IF HasInv(e.t) /\ Len(VersOf(RJ(e.t))) = N THEN BuildOK(e.t, e, N - 1) ELSE {})
        ELSE IF Occupied(s.t) THEN Unchanged(s, e)
        ELSE Cl("C01.refused-but-valid", IsAbsent(e.t) \/ ~Sound(e.t)))

(***************************************************************************)
(* Staging a new version                                                   *)
(***************************************************************************)
StartMust(s, e) == BaseBad(s.t, e.lax) \/ (InvGood(s.t, e.lax) /\ Exhausted(s.t))
                   \/ e.nosrc
StartMay(s, e) == (~IsAbsent(s.t) /\ Res(s.t, e.lax, FALSE).unspec) \/ e.alg \notin (KnownAlgs \cup {""})
                  \/ ~MetaOK(e.meta)
                  \/ (~IsAbsent(s.t) /\ ~Sound(s.t))   \* damaged content may be noticed
\* the properties which suffer when a new version is wrongly refused or accepted
WhichRef(t, e, what) ==
  {"C02." \o what} \cup (IF IsAbsent(t) \/ ~HasInv(t) \/ ~SeqOK(RJ(t)) THEN {} ELSE
     Cl("C17." \o what, CountOf(t) < 9 /\ PadOf(t) = 0)
     \cup Cl("C19." \o what, e.alg = "" /\ ~e.fixset)
     \cup Cl("C23." \o what, Has(RJ(t), "type") /\ SpecOf(t) = "1.1"))
WhichAcc(t, e, what) ==
  {"C01." \o what, "C03." \o what} \cup (IF IsAbsent(t) \/ ~HasInv(t) \/ ~SeqOK(RJ(t)) THEN {} ELSE Cl("C17." \o what, ~Exhausted(t)))

Staged(s, e) ==
  LET t == s.t
      alg == IF e.alg = "" THEN AlgOf(t) ELSE e.alg
  IN [base |-> t, sound |-> Sound(t), map |-> IF e.carry THEN MapAt(t, HeadOf(t)) ELSE EmptyMap, adds |-> <<>>, exact |-> TRUE, cd |-> CdOf(t), fwd |-> e.fwd,
      dedupe |-> e.dedupe, alg |-> alg, spec |-> SpecOf(t), lax |-> e.lax \/ alg \notin ContentAlgs, meta |-> e.meta, newv |-> NextV(t), norm |-> e.norm,
      fix |-> NextFix(t, alg, e.fixset, e.fixalgs), id |-> Get(RJ(t), "id").v, which |-> WhichRef(t, e, "commit-refused")]

\* the staged map as observed through the interface: <<[p, d]>>
ObsOK(x, e) ==
  /\ {e.obs[i].p : i \in DOMAIN e.obs} = DOMAIN x.map
  /\ Len(e.obs) = Cardinality(DOMAIN x.map)
  /\ \A i \in DOMAIN e.obs : TrueDigest(x.alg, e.obs[i].d, x.map[e.obs[i].p])
\* the reported difference
DiffOK(x, e) ==
  LET prev == MapAt(x.base, HeadOf(x.base))
      A == {g \in DOMAIN x.map : g \notin DOMAIN prev \/ prev[g] # x.map[g]}
      D == {g \in DOMAIN prev : g \notin DOMAIN x.map \/ prev[g] # x.map[g]}
      Rep(op) == {i \in DOMAIN e.diff : e.diff[i].o = op}
  IN /\ {e.diff[i].p : i \in Rep("A")} = A /\ Cardinality(Rep("A")) = Cardinality(A)
     /\ {e.diff[i].p : i \in Rep("D")} = D /\ Cardinality(Rep("D")) = Cardinality(D)
     /\ \A i \in Rep("A") : TrueDigest(x.alg, e.diff[i].d, x.map[e.diff[i].p])
     /\ \A i \in Rep("D") : TrueDigest(x.alg, e.diff[i].d, prev[e.diff[i].p])
Observed(x, e) == IF ~x.sound THEN {} ELSE Cl("C05.staged-map", ObsOK(x, e)) \cup Cl("C18.difference", DiffOK(x, e))

\* adding one file: content path cp requested, <<>> if not
ReqOK(x, cp) == Len(cp) > 2 /\ cp[1] = x.newv /\ cp[2] = x.cd /\ Legal(cp)
BaseCps(x) == ManPaths(RJ(x.base))
\* content paths surely used by files added before
SureCps(x) == {x.adds[i].cp : i \in {i \in DOMAIN x.adds : x.adds[i].cp # <<>> /\ x.exact /\ x.adds[i].st}}
AnyCps(x) == {x.adds[i].cp : i \in {i \in DOMAIN x.adds : x.adds[i].cp # <<>>}} \cup {<<x.newv, x.cd>> \o x.adds[i].n : i \in DOMAIN x.adds}
AddMust(x, e) == ~Legal(e.lp) \/ e.lp \in DOMAIN x.map \/ Clash(e.lp, DOMAIN x.map) \/ e.missing
                 \/ (e.cp # <<>> /\ (~ReqOK(x, e.cp) \/ e.cp \in SureCps(x) \/ Clash(e.cp, SureCps(x))))
                 \/ (e.norm \notin Norms /\ e.cp = <<>>)
AddMay(x, e) == LET cp == IF e.cp # <<>> THEN e.cp ELSE <<x.newv, x.cd>> \o e.n IN
                 x.alg \notin KnownAlgs \/ e.cpused \/ Clash(cp, AnyCps(x)) \/ (e.cp # <<>> /\ cp \in AnyCps(x)) \/ ~Legal(cp)
\* is a file with this content surely stored by this add
Stores(x, c) == LET prev == OldContents(x.base)
                    cur == \E i \in DOMAIN x.adds : x.adds[i].c = c /\ x.adds[i].st
                IN (c \notin prev /\ ~cur) \/ (~cur /\ ~x.fwd) \/ (cur /\ ~x.dedupe)
DelMust(x, e) == e.lp \notin DOMAIN x.map
RenMust(x, e) == \/ e.lp \notin DOMAIN x.map
                 \/ e.to \in DOMAIN x.map
                 \/ ~Legal(e.to)
                 \/ Clash(e.to, DOMAIN x.map \ {e.lp})
Edited(x, e) ==   \* the staged version after an accepted edit
  CASE e.op = "add" -> [x EXCEPT !.map = With(x.map, e.lp, e.c), !.adds = Append(x.adds, [c |-> e.c, n |-> e.n, cp |-> e.cp, st |-> Stores(x, e.c)])]
    [] e.op = "delete" -> [x EXCEPT !.map = Without(x.map, e.lp),
                                    !.exact = IF \E i \in DOMAIN x.adds : x.adds[i].c = x.map[e.lp] THEN FALSE ELSE x.exact]
    [] e.op = "rename" -> [x EXCEPT !.map = With(Without(x.map, e.lp), e.to, x.map[e.lp])]
    [] e.op = "meta" -> [x EXCEPT !.meta = e.meta]
    [] OTHER -> x
EditMust(x, e) == CASE e.op = "add" -> AddMust(x, e) [] e.op = "delete" -> DelMust(x, e) [] e.op = "rename" -> RenMust(x, e) [] OTHER -> FALSE
EditMay(x, e) == IF e.op = "add" THEN AddMay(x, e) ELSE FALSE
StepEdit(s, e) ==
  LET x == s.st[e.h] IN
  Refusal({"C05." \o e.op \o "-accepted"} \cup (IF e.op = "add" /\ e.cp # <<>> THEN Cl("C06.add-accepted", ReqOK(x, e.cp)) ELSE {}),
          {"C05." \o e.op \o "-refused", "C02." \o e.op \o "-refused"}, EditMust(x, e), EditMay(x, e), e)
  \cup Cl("C05.storage-changed", SameTree(s.t, e.t))
  \cup (IF e.res = "ok" THEN (IF EditMust(x, e) THEN {} ELSE Observed(Edited(x, e), e)) ELSE Observed(x, e))

\* a staged version is stale if the object has changed since
Stale(s, x) == ~SameTree(s.t, x.base)
CommitMust(s, x) == ((HasInv(s.t) /\ HasEntry(s.t, <<x.newv>>)) \/ ~MetaOK(x.meta) \/ x.alg \notin KnownAlgs) /\ ~MetaOpen(x.meta)
CommitMay(s, x) == Stale(s, x) \/ MetaOpen(x.meta)
Wanted(x) == [id |-> x.id, map |-> x.map, meta |-> x.meta, alg |-> x.alg, cd |-> x.cd, spec |-> x.spec, lax |-> x.lax,
              fwd |-> x.fwd, dedupe |-> x.dedupe, adds |-> x.adds, exact |-> x.exact, fix |-> x.fix]
StepCommit(s, e) ==
  LET x == s.st[e.h] IN
  Refusal({"C03.commit-accepted", "C01.commit-accepted"}, {"C05.commit-refused"} \cup x.which, CommitMust(s, x), CommitMay(s, x), e)
  \cup (IF e.res = "ok" THEN (IF Stale(s, x) THEN {} ELSE
                              Written(s.t, e.t, e, x.newv, Wanted(x)) \cup Cl("C05.committed-map", ~x.sound \/ (HasInv(e.t) /\ VersOf(RJ(e.t)) # <<>> /\ MapAt(e.t, HeadOf(e.t)) = x.map)))
        ELSE Unchanged(s, e))

\* update: start, add everything, (compare,) commit in one go
UpMust(s, e) == StartMust(s, e) \/ (~MetaOK(e.meta) /\ ~MetaOpen(e.meta) /\ ~e.abort)
UpMay(s, e) == StartMay(s, e) \/ (e.norm \notin Norms /\ e.srcs # <<>>)
StepUpdate(s, e) ==
  LET meta == ~e.hassrc
      must == UpMust(s, e)
      x0 == Staged(s, [e EXCEPT !.carry = meta])
      x == IF meta THEN x0 ELSE [x0 EXCEPT !.map = SrcMap(e.src), !.adds = AddsOf(e.src)]
  IN Refusal(WhichAcc(s.t, e, "update-accepted"), WhichRef(s.t, e, "update-refused") \cup Cl("C18.update-refused", ~e.abort /\ e.hassrc), must, UpMay(s, e), e)
     \cup (IF e.res = "refused" THEN Unchanged(s, e)
           ELSE IF must THEN {}
           ELSE Cl("C18.no-difference", ~x.sound \/ ((e.res = "none") <=> (e.abort /\ x.map = MapAt(s.t, HeadOf(s.t)))))
                \cup (IF e.res = "none" THEN Cl("C18.changed-without-difference", SameTree(s.t, e.t))
                      ELSE Written(s.t, e.t, e, x.newv, Wanted(x))
                           \cup Cl("C22.printed", "said" \notin DOMAIN e \/ (e.said.id = x.id /\ e.said.head = x.newv))
                           \cup Cl("C18.metadata-only", ~x.sound \/ ~meta \/ (HasInv(e.t) /\ VersOf(RJ(e.t)) # <<>> /\ MapAt(e.t, HeadOf(e.t)) = x.map))))

(***************************************************************************)
(* Extraction and reading                                                  *)
(***************************************************************************)
ReadOK(t, lax) == InvGood(t, lax)
VerOf(t, ver) == IF ver = "head" THEN HeadOf(t) ELSE ver
VerKnown(t, ver) == ver = "head" \/ ver \in VersionKeys(RJ(t))
Parents(P) == UNION {{SubSeq(p, 1, k) : k \in 1..(Len(p) - 1)} : p \in P}
ReadMust(s, e) == ~InvGood(s.t, e.lax) \/ ~VerKnown(s.t, e.ver)
ReadMay(s, e) == ~Sound(s.t) \/ Res(s.t, e.lax, FALSE).unspec
OutMap(e) == TLCEval([p \in {e.out[i].p : i \in DOMAIN e.out} |-> e.out[CHOOSE i \in DOMAIN e.out : e.out[i].p = p].c])
StepExtract(s, e) ==
  LET must == ReadMust(s, e) \/ e.dst \in {"full", "file", "noparent"} IN
  Refusal({"C16.extract-accepted"}, {"C16.extract-refused", "C02.extract-refused"}, must, ReadMay(s, e), e)
  \cup Cl("C16.object-changed", SameTree(s.t, e.t))
  \cup (IF e.res = "refused" THEN Cl("C16.refused-but-wrote", must => e.out = e.before)
        ELSE IF must \/ ~Sound(s.t) THEN {}
        ELSE LET m == MapAt(s.t, VerOf(s.t, e.ver)) IN
             Cl("C16.not-the-version", OutMap(e) = m /\ Len(e.out) = Cardinality(DOMAIN m) /\ Rng(e.outdirs) = Parents(DOMAIN m))
             \cup Cl("C02.extracted", OutMap(e) = m)
             \cup Cl("C02.extracted-metadata", MetaMatches(MetaAt(RJ(s.t), VerOf(s.t, e.ver)), e.meta)))
StepExtractFile(s, e) ==
  LET unknown == ~ReadMust(s, e) /\ e.lp \notin LogicalPaths(RJ(s.t), VerOf(s.t, e.ver))
      must == ReadMust(s, e) \/ unknown \/ e.dst \in {"samename", "file", "noparent"} IN
  Refusal({"C16.extract-file-accepted"}, {"C16.extract-file-refused"}, must, ReadMay(s, e), e)
  \cup Cl("C16.object-changed", SameTree(s.t, e.t))
  \cup (IF e.res = "refused" THEN Cl("C16.refused-but-wrote", must => e.out = e.before)
        ELSE IF must \/ ~Sound(s.t) THEN {}
        ELSE LET c == MapAt(s.t, VerOf(s.t, e.ver))[e.lp] IN
             Cl("C16.not-the-file", /\ {[p |-> e.out[i].p, c |-> e.out[i].c] : i \in DOMAIN e.out}
                                        = {[p |-> e.before[i].p, c |-> e.before[i].c] : i \in DOMAIN e.before} \cup {[p |-> <<e.lp[Len(e.lp)]>>, c |-> c]}
                                    /\ e.outdirs = e.beforedirs)
             \cup Cl("C02.extracted-metadata", MetaMatches(MetaAt(RJ(s.t), VerOf(s.t, e.ver)), e.meta)))
\* reading through the inventory interface
StepRead(s, e) ==
  LET must == ~ReadOK(s.t, e.lax) IN
  Refusal({"C02.read-accepted"}, {"C02.read-refused"}, must, ~HasInv(s.t) \/ ReadMay(s, [e EXCEPT !.ver = "head"]), e)
  \cup Quiet(s, e)
  \cup (IF e.res = "refused" \/ must THEN {}
        ELSE LET o == VersOf(RJ(s.t)) IN
             Cl("C17.order", [k \in DOMAIN e.vers |-> e.vers[k].v] = o /\ \A k \in DOMAIN e.vers : e.vers[k].n = k)
             \cup Cl("C17.head", e.head = HeadOf(s.t))
             \cup Cl("C02.read-map", \A k \in DOMAIN e.vers : e.vers[k].v \in Rng(o) =>
                   LET m == MapAt(s.t, e.vers[k].v)
                       l == e.vers[k].files IN
                     /\ {l[i].p : i \in DOMAIN l} = DOMAIN m /\ Len(l) = Cardinality(DOMAIN m)
                     /\ Sound(s.t) => \A i \in DOMAIN l : l[i].c = m[l[i].p])
             \cup Cl("C02.read-metadata", \A k \in DOMAIN e.vers : e.vers[k].v \in Rng(o) => e.vers[k].meta = MetaAt(RJ(s.t), e.vers[k].v)))

\* a version of another specification version is asked for
StepSpec(s, e) ==
  Quiet(s, e)
  \cup (IF ~Sound(s.t) \/ e.spec \notin SpecVersions THEN {} ELSE
        Refusal({"C23.lower-accepted"}, {"C23.request-refused"}, SpecNum(e.spec) < SpecNum(SpecOf(s.t)), Res(s.t, e.lax, TRUE).unspec \/ Exhausted(s.t), e)
        \cup Cl("C23.not-as-requested", e.res = "refused" \/ e.got = TypeOf(e.spec)))

\* the library's validator, at any time (inspection)
\* (said: exit status and verdicts printed by the command)
StepValidate(s, e) ==
  Quiet(s, e)
  \cup (IF "said" \notin DOMAIN e THEN {}
        ELSE Cl("C22.exit-status", (e.said.rc = 0) <=> (e.said.v = <<"VALID">>))
             \cup Cl("C22.invalid-called-valid", (~IsAbsent(s.t) /\ Res(s.t, e.lax, TRUE).must = {}) \/ e.said.rc # 0)
             \cup Cl("C22.valid-called-invalid", IsAbsent(s.t) \/ Res(s.t, e.lax, TRUE).must # {} \/ Res(s.t, e.lax, TRUE).unspec \/ e.said.rc = 0))

Broken(s, e) ==
  Other(e) \cup
  (CASE e.op = "create" -> StepCreate(s, e)
    [] e.op = "update" -> StepUpdate(s, e)
    [] e.op = "start" -> Refusal(WhichAcc(s.t, e, "start-accepted") \cup {"C05.start-accepted"}, WhichRef(s.t, e, "start-refused") \cup {"C05.start-refused"}, StartMust(s, e), StartMay(s, e), e) \cup Cl("C05.storage-changed", SameTree(s.t, e.t))
                         \cup (IF e.res = "ok" /\ ~StartMust(s, e) THEN Observed(Staged(s, e), e) ELSE {})
    [] e.op \in {"add", "delete", "rename", "meta"} -> StepEdit(s, e)
    [] e.op = "commit" -> StepCommit(s, e)
    [] e.op = "extract" -> StepExtract(s, e)
    [] e.op = "extractfile" -> StepExtractFile(s, e)
    [] e.op = "read" -> StepRead(s, e)
    [] e.op = "spec" -> StepSpec(s, e)
    [] e.op = "validate" -> StepValidate(s, e)
    [] OTHER -> {})

After(s, e) ==
  [t |-> e.t,
   st |-> CASE e.op = "start" /\ e.res = "ok" /\ ~StartMust(s, e) -> (e.h :> Staged(s, e)) @@ s.st
            [] e.op \in {"add", "delete", "rename", "meta"} /\ e.res = "ok" /\ ~EditMust(s.st[e.h], e) -> [s.st EXCEPT ![e.h] = Edited(@, e)]
            [] OTHER -> s.st]
=============================================================================
