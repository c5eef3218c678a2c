----------------------------- MODULE OcflObject -----------------------------
(***************************************************************************)
(* A constructive model of one OCFL object: what it holds is kept as a     *)
(* sequence of versions (o), at most one staged version (x), and the       *)
(* directory is rendered from that, as an implementation would write it.   *)
(* Every step is also judged by the declarative specification (OcflSteps,  *)
(* OcflRules): bad holds the clauses broken, which must stay empty, so the *)
(* judge accepts exactly what this implementation does.  The steps are     *)
(* written out (DUMP) with a path to them, and replayed on the code.       *)
(***************************************************************************)
EXTENDS OcflSteps, OcflRender, Json, IOUtils
CONSTANTS LPaths,      \* logical paths (sequences of segments)
          Conts,       \* contents
          MaxVer, MaxAdds,
          Algs, Specs, Cds,
          Ops,         \* names of the operations in play
          Metas, Fwds, Dedupes

VARIABLES o, x, s, bad, tr
vars == <<o, x, s, bad, tr>>

Render(ob) == IF ~ob.has THEN Absent ELSE Rendered(ob)

(***************************************************************************)
(* The implementation                                                      *)
(***************************************************************************)
NoObj == [has |-> FALSE]
NoStage == [on |-> FALSE]
Maps == UNION {[D -> Conts] : D \in {D \in SUBSET LPaths : ~Conflict(D)}}
\* content paths taken by files to be stored, in the order they are added;
\* a taken path gets a suffix
RECURSIVE Suffixed(_, _, _)
Suffixed(p, k, taken) ==
  LET q == IF k = 1 THEN p ELSE [p EXCEPT ![Len(p)] = @ \o "__" \o ToString(k)]
  IN IF q \in taken THEN Suffixed(p, k + 1, taken) ELSE q
\* one file added to the staged version y
Place(ob, y, n, c) ==
  LET prev == {q[2] : q \in Stored(ob, Len(ob.vs))}
      mine == {q[2] : q \in y.new}
  IN IF (y.fwd /\ c \in prev) \/ (y.dedupe /\ c \in mine) \/ (y.fwd /\ y.dedupe /\ c \in prev) THEN y
     ELSE [y EXCEPT !.new = @ \cup {<<Suffixed(<<V(Len(ob.vs) + 1), ob.cd>> \o n, 1, {q[1] : q \in y.new}), c>>}]
RECURSIVE PlaceAll(_, _, _)
PlaceAll(ob, y, src) ==
  IF src = <<>> THEN y
  ELSE PlaceAll(ob, [Place(ob, y, src[1].n, src[1].c) EXCEPT !.map = With(@, src[1].p, src[1].c)], Tail(src))
Src(m) == LET P == ToSeq(DOMAIN m) IN [i \in DOMAIN P |-> [p |-> P[i], c |-> m[P[i]], n |-> P[i]]]
NewFix(ob, alg) ==
  LET h == ob.vs[Len(ob.vs)] IN
  IF alg = h.alg THEN h.fix ELSE {q \in h.fix : q[1] # h.alg} \cup {<<h.alg, q[1]>> : q \in Stored(ob, Len(ob.vs))}
\* files nothing refers to any more are not stored
Used(y) == {q \in y.new : \E p \in DOMAIN y.map : y.map[p] = q[2]}
Version(y, fix) == [map |-> y.map, new |-> Used(y), meta |-> y.meta, alg |-> y.alg, spec |-> y.spec, fix |-> fix]
Stage(map, meta, alg, spec, fwd, dedupe) ==
  [on |-> TRUE, map |-> map, new |-> {}, meta |-> meta, alg |-> alg, spec |-> spec, fwd |-> fwd, dedupe |-> dedupe, n |-> 0]
Commit(ob, y) == [ob EXCEPT !.vs = Append(@, Version(y, NewFix(ob, y.alg)))]
First(a) == [has |-> TRUE, id |-> a.id, cd |-> a.cd, vs |-> <<>>]
RECURSIVE Built(_, _, _)
Built(ob, a, n) ==
  IF n > Len(a.srcs) THEN ob
  ELSE LET y == PlaceAll(ob, Stage(EmptyMap, a.metas[n], a.alg, a.spec, a.fwd, a.dedupe), a.srcs[n])
       IN Built([ob EXCEPT !.vs = Append(@, Version(y, {}))], a, n + 1)
HeadV == o.vs[Len(o.vs)]

\* the outcome of operation a: [ok, none, o, x]
Same == [res |-> "refused", o |-> o, x |-> x]
Done(ob, y) == [res |-> "ok", o |-> ob, x |-> y]
Do(a) ==
  CASE a.op = "create" -> IF o.has THEN Same ELSE Done(Built(First(a), a, 1), x)
    [] a.op = "update" ->
         IF ~o.has THEN Same
         ELSE LET alg == IF a.alg = "" THEN HeadV.alg ELSE a.alg
                  y0 == Stage(IF a.hassrc THEN EmptyMap ELSE HeadV.map, a.meta, alg, HeadV.spec, a.fwd, a.dedupe)
                  y == IF a.hassrc THEN PlaceAll(o, y0, a.src) ELSE y0
              IN IF a.abort /\ y.map = HeadV.map THEN [res |-> "none", o |-> o, x |-> x]
                 ELSE Done(Commit(o, y), x)
    [] a.op = "start" ->
         IF ~o.has THEN Same
         ELSE Done(o, Stage(IF a.carry THEN HeadV.map ELSE EmptyMap, a.meta, IF a.alg = "" THEN HeadV.alg ELSE a.alg, HeadV.spec, a.fwd, a.dedupe))
    [] a.op = "add" ->
         IF ~Legal(a.lp) \/ a.lp \in DOMAIN x.map \/ Clash(a.lp, DOMAIN x.map) THEN Same
         ELSE Done(o, [Place(o, x, a.n, a.c) EXCEPT !.map = With(@, a.lp, a.c), !.n = @ + 1])
    [] a.op = "delete" -> IF a.lp \notin DOMAIN x.map THEN Same ELSE Done(o, [x EXCEPT !.map = Without(@, a.lp)])
    [] a.op = "rename" ->
         IF a.lp \notin DOMAIN x.map \/ a.to \in DOMAIN x.map \/ ~Legal(a.to) \/ Clash(a.to, DOMAIN x.map \ {a.lp}) THEN Same
         ELSE Done(o, [x EXCEPT !.map = With(Without(@, a.lp), a.to, x.map[a.lp])])
    [] a.op = "commit" -> Done(Commit(o, x), NoStage)
    [] OTHER -> [res |-> IF o.has THEN "ok" ELSE "refused", o |-> o, x |-> x]

(***************************************************************************)
(* What is asked                                                           *)
(***************************************************************************)
Settings == [norm : {"none"}, fwd : Fwds, dedupe : Dedupes]
Paths2 == LPaths \cup {<<"..", "u">>}
Asked ==
  (IF "create" \in Ops /\ ~x.on
   THEN {[op |-> "create", id |-> "i", spec |-> sp, alg |-> al, cd |-> cd, dry |-> FALSE, cdslash |-> FALSE, srcs |-> <<Src(m)>>, metas |-> <<me>>] @@ st :
           sp \in Specs, al \in Algs, cd \in Cds, m \in IF o.has THEN {EmptyMap} ELSE Maps, me \in Metas, st \in Settings} ELSE {})
  \cup (IF "build" \in Ops /\ ~o.has
   THEN {[op |-> "create", id |-> "i", spec |-> sp, alg |-> al, cd |-> cd, dry |-> FALSE, cdslash |-> FALSE, srcs |-> <<Src(m), Src(m2)>>, metas |-> <<me, me>>] @@ st :
           sp \in Specs, al \in Algs, cd \in Cds, m \in Maps, m2 \in Maps, me \in Metas, st \in Settings} ELSE {})
  \cup (IF "update" \in Ops /\ ~x.on /\ (~o.has \/ Len(o.vs) < MaxVer)
   THEN {[op |-> "update", hassrc |-> TRUE, src |-> Src(m), abort |-> ab, alg |-> al, meta |-> me] @@ st :
           m \in IF o.has THEN Maps ELSE {EmptyMap}, ab \in BOOLEAN, al \in Algs \cup {""}, me \in Metas, st \in Settings}
        \cup {[op |-> "update", hassrc |-> FALSE, src |-> <<>>, abort |-> ab, alg |-> al, meta |-> me] @@ st :
           ab \in BOOLEAN, al \in Algs \cup {""}, me \in Metas, st \in Settings} ELSE {})
  \cup (IF "start" \in Ops /\ ~x.on /\ (~o.has \/ Len(o.vs) < MaxVer)
   THEN {[op |-> "start", carry |-> ca, alg |-> al, meta |-> me] @@ st : ca \in BOOLEAN, al \in Algs \cup {""}, me \in Metas, st \in Settings} ELSE {})
  \cup (IF "start" \in Ops /\ x.on
   THEN (IF x.n < MaxAdds THEN {[op |-> "add", lp |-> lp, c |-> c, n |-> <<c>>] : lp \in Paths2, c \in Conts} ELSE {})
        \cup {[op |-> "delete", lp |-> lp] : lp \in LPaths}
        \cup {[op |-> "rename", lp |-> lp, to |-> to] : lp \in LPaths, to \in Paths2}
        \cup {[op |-> "commit"]} ELSE {})
  \cup (IF "extract" \in Ops /\ ~x.on
   THEN {[op |-> "extract", ver |-> v, dst |-> "absent"] : v \in {V(n) : n \in 1..(MaxVer + 1)} \cup {"head"}}
        \cup {[op |-> "extractfile", ver |-> v, dst |-> "absent", lp |-> lp] : v \in {V(n) : n \in 1..(MaxVer + 1)} \cup {"head"}, lp \in Paths2}
        \cup {[op |-> "read"]} ELSE {})

(***************************************************************************)
(* The events as the declarative specification sees them                   *)
(***************************************************************************)
Known(v) == v = "head" \/ v \in {V(n) : n \in DOMAIN o.vs}
At(v) == IF v = "head" THEN HeadV ELSE o.vs[CHOOSE n \in DOMAIN o.vs : V(n) = v]
OutSeq(m) == LET P == ToSeq(DOMAIN m) IN [i \in DOMAIN P |-> [p |-> P[i], c |-> m[P[i]]]]
PlainMeta(m) == [created |-> m.created, message |-> m.message, name |-> m.name, address |-> m.address]
ObsSeq(y) == LET P == ToSeq(DOMAIN y.map) IN [i \in DOMAIN P |-> [p |-> P[i], d |-> Tok(y.alg, y.map[P[i]])]]
DiffSeq(ob, y) ==
  LET prev == ob.vs[Len(ob.vs)].map
      A == ToSeq({<<"A", g, y.map[g]>> : g \in {g \in DOMAIN y.map : g \notin DOMAIN prev \/ prev[g] # y.map[g]}}
                 \cup {<<"D", g, prev[g]>> : g \in {g \in DOMAIN prev : g \notin DOMAIN y.map \/ prev[g] # y.map[g]}})
  IN [i \in DOMAIN A |-> [o |-> A[i][1], p |-> A[i][2], d |-> Tok(y.alg, A[i][3])]]
Lib == [v |-> "valid", codes |-> <<>>]
Event(a, r) ==
  LET t == Render(r.o)
      base == [t |-> t, res |-> r.res, lax |-> FALSE, elsewhere |-> FALSE, lib |-> Lib, h |-> "h1"]
      seen == IF r.x.on THEN [obs |-> ObsSeq(r.x), diff |-> DiffSeq(r.o, r.x)] ELSE [obs |-> <<>>, diff |-> <<>>]
  IN CASE a.op = "create" -> a @@ base
       [] a.op = "update" -> a @@ [fixset |-> FALSE, fixalgs |-> <<>>, carry |-> ~a.hassrc, nosrc |-> FALSE, srcs |-> a.src] @@ base
       [] a.op = "start" -> a @@ [fixset |-> FALSE, fixalgs |-> <<>>, nosrc |-> FALSE] @@ seen @@ base
       [] a.op = "add" -> a @@ [cp |-> <<>>, missing |-> FALSE, cpused |-> FALSE, norm |-> "none"] @@ seen @@ base
       [] a.op \in {"delete", "rename"} -> a @@ seen @@ base
       [] a.op = "extract" ->
            LET ok == o.has /\ Known(a.ver)
                m == IF ok THEN At(a.ver).map ELSE EmptyMap IN
            a @@ [out |-> OutSeq(m), outdirs |-> ToSeq(Parents(DOMAIN m)), before |-> <<>>, res |-> IF ok THEN "ok" ELSE "refused",
                  meta |-> IF ok THEN PlainMeta(At(a.ver).meta) ELSE PlainMeta(CHOOSE me \in Metas : TRUE)] @@ base
       [] a.op = "extractfile" ->
            LET ok == o.has /\ Known(a.ver) /\ a.lp \in DOMAIN At(a.ver).map IN
            a @@ [out |-> IF ok THEN <<[p |-> <<a.lp[Len(a.lp)]>>, c |-> At(a.ver).map[a.lp]]>> ELSE <<>>, outdirs |-> <<>>, before |-> <<>>, beforedirs |-> <<>>,
                  res |-> IF ok THEN "ok" ELSE "refused", meta |-> IF ok THEN PlainMeta(At(a.ver).meta) ELSE PlainMeta(CHOOSE me \in Metas : TRUE)] @@ base
       [] a.op = "read" ->
            a @@ [ver |-> "head",
                  head |-> IF o.has THEN V(Len(o.vs)) ELSE "",
                  vers |-> IF o.has THEN [n \in DOMAIN o.vs |-> [v |-> V(n), n |-> n, files |-> OutSeq(o.vs[n].map), meta |-> PlainMeta(o.vs[n].meta)]] ELSE <<>>] @@ base
       [] OTHER -> a @@ base

Init == o = NoObj /\ x = NoStage /\ s = [t |-> Absent, st |-> <<>>] /\ bad = {} /\ tr = <<>>
Dump(a, r) == IF "DUMP" \in DOMAIN IOEnv THEN PrintT(ToJson([tr |-> tr, a |-> a, stay |-> r.o = o /\ r.x = x])) ELSE TRUE
Next == \E a \in Asked :
          LET r == Do(a)
              e == TLCEval(Event(a, r))
          IN /\ Dump(a, r)
             /\ o' = r.o
             /\ x' = r.x
             /\ bad' = Broken(s, e)
             /\ s' = IF r.o = o /\ r.x = x THEN s
                     ELSE LET q == After(s, e) IN [t |-> Annotated(q.t, FALSE), st |-> IF r.x.on THEN q.st ELSE <<>>]
             /\ tr' = IF r.o = o /\ r.x = x THEN tr ELSE Append(tr, a)
Spec == Init /\ [][Next]_vars
View == <<o, x, bad>>

(***************************************************************************)
(* Properties of the model itself                                          *)
(***************************************************************************)
Accepted == bad = {}
\* what is rendered breaks no rule (C01), and reads back as it was submitted (C02)
Faithful == o.has => /\ s.t.an.r.must = {} /\ ~s.t.an.r.unspec
                     /\ \A n \in DOMAIN o.vs : MapAt(s.t, V(n)) = o.vs[n].map
\* only ever longer (C03, C17)
Appends == [][o.has => o'.has /\ Len(o'.vs) >= Len(o.vs) /\ SubSeq(o'.vs, 1, Len(o.vs)) = o.vs /\ Len(o'.vs) <= Len(o.vs) + 1]_vars
\* with forward deltas each content is stored in one version only (C06)
Once == (o.has /\ Fwds = {TRUE} /\ Dedupes = {TRUE}) => \A q1 \in Stored(o, Len(o.vs)) : \A q2 \in Stored(o, Len(o.vs)) : q1[2] = q2[2] => q1 = q2
=============================================================================
