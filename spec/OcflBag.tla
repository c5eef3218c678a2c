------------------------------- MODULE OcflBag -------------------------------
(***************************************************************************)
(* BagIt bags as source and destination of object versions.                *)
(* A bag is [files <<[p, c, n]>> (path, content, size), decl "good", "bad",*)
(* "none" or "odd", data (is there a payload directory), mans and tagmans  *)
(* <<[alg, entries <<[p, d]>>]>>, fetch, odd (something in it whose meaning*)
(* is not settled), oxum [b, n] (-1: none), info [id, message, name, email,*)
(* date, ts]].                                                             *)
(***************************************************************************)
EXTENDS OcflSteps

BagAlgs == {"md5", "sha1", "sha256", "sha512"}
IsPayload(p) == Len(p) > 1 /\ p[1] = "data"
Payload(b) == {i \in DOMAIN b.files : IsPayload(b.files[i].p)}
PayPaths(b) == {b.files[i].p : i \in Payload(b)}
BagPaths(b) == {b.files[i].p : i \in DOMAIN b.files}
BagC(b, p) == b.files[CHOOSE i \in DOMAIN b.files : b.files[i].p = p].c
Listed(m) == {m.entries[i].p : i \in DOMAIN m.entries}
Wrong(b, m) == \E i \in DOMAIN m.entries : LET x == m.entries[i] IN
                 \/ x.p \notin BagPaths(b)
                 \/ (m.alg \in BagAlgs /\ ~TrueDigest(m.alg, x.d, BagC(b, x.p)))
RECURSIVE SumTo(_, _)
SumTo(b, k) == IF k = 0 THEN 0 ELSE SumTo(b, k - 1) + (IF IsPayload(b.files[k].p) THEN b.files[k].n ELSE 0)
Known(ms) == {i \in DOMAIN ms : ms[i].alg \in BagAlgs}
\* surely not a valid and complete bag
BagBad(b) ==
  \/ b.decl \in {"none", "bad"}
  \/ ~b.data
  \/ b.mans = <<>>
  \/ \E i \in Known(b.mans) : Wrong(b, b.mans[i])
  \/ \E i \in Known(b.tagmans) : Wrong(b, b.tagmans[i])
  \/ (~b.odd /\ PayPaths(b) \ UNION {Listed(b.mans[i]) : i \in DOMAIN b.mans} # {})
  \/ (b.oxum.n # -1 /\ (b.oxum.n # Cardinality(Payload(b)) \/ b.oxum.b # SumTo(b, Len(b.files))))
\* not decided whether it is
BagOpen(b) ==
  \/ b.odd \/ b.fetch \/ b.decl = "odd"
  \/ Known(b.mans) # DOMAIN b.mans \/ Known(b.tagmans) # DOMAIN b.tagmans
  \/ \E i \in DOMAIN b.mans : Listed(b.mans[i]) # PayPaths(b)
BagGood(b) == ~BagBad(b) /\ ~BagOpen(b)
PayMap(b) == TLCEval([p \in {Tail(q) : q \in PayPaths(b)} |-> BagC(b, <<"data">> \o p)])

\* what is given explicitly comes first
Over(x, y) == IF x # "none" THEN x ELSE y
Said(x) == SubSeq(x, 2, Len(x))
FromBag(m, b) ==
  [created |-> Over(m.created, IF b.info.date = "none" THEN "none" ELSE b.info.date \o "T00:00:00Z"),
   message |-> Over(m.message, b.info.message),
   name |-> Over(m.name, b.info.name),
   address |-> Over(m.address, IF b.info.email = "none" THEN "none" ELSE "=mailto:" \o Said(b.info.email)),
   ts |-> IF m.created # "none" \/ b.info.date = "none" THEN m.ts ELSE b.info.ts]

\* reading a bag: e.meta given, e.id given ("none": not), e.got what came of it
StepBagSource(s, e) ==
  Quiet(s, e)
  \cup Refusal({"C21.bad-bag-accepted"}, {"C21.good-bag-refused"}, BagBad(e.bag), BagOpen(e.bag), e)
  \cup (IF e.res = "refused" THEN Cl("C21.wrong-error", e.bag.odd \/ e.bag.decl # "good" \/ e.named)
        ELSE IF BagBad(e.bag) \/ BagOpen(e.bag) THEN {}
        ELSE LET w == FromBag(e.meta, e.bag) IN
             Cl("C21.payload-directory", e.got.dir = <<"data">>)
             \cup Cl("C21.identifier", e.got.id = Over(e.id, e.bag.info.id))
             \cup Cl("C21.metadata-from-bag", \A f \in {"created", "message", "name", "address"} : e.got[f] = w[f]))

\* create or update from a bag by ocfl-object.py (e.id: asked for, "" if not)
StepBagIn(s, e) ==
  LET b == e.bag
      new == e.what = "create"
      objid == IF ~new /\ HasInv(s.t) /\ Has(RJ(s.t), "id") /\ IsStr(Get(RJ(s.t), "id")) THEN Get(RJ(s.t), "id").v ELSE ""
      bagid == IF b.info.id = "none" THEN "" ELSE Said(b.info.id)
      asked == IF new THEN e.id ELSE objid
      conflict == bagid # "" /\ asked # "" /\ bagid # asked
      m == FromBag(e.metas[1], b)
      x == IF new THEN [e EXCEPT !.op = "create", !.id = IF e.id # "" THEN e.id ELSE bagid, !.metas = <<m>>]
           ELSE [e EXCEPT !.op = "update", !.meta = m]
      mapOK == DOMAIN PayMap(b) = {e.srcs0[i].p : i \in DOMAIN e.srcs0}    \* of the harness
  IN IF BagBad(b) \/ (conflict /\ ~BagOpen(b))
     THEN Refusal(IF BagBad(b) THEN {"C21.bad-bag-accepted"} ELSE {"C21.conflict-accepted"}, {}, TRUE, FALSE, e) \cup Cl("C21.refused-but-changed", SameTree(s.t, e.t) \/ e.res # "refused")
     ELSE IF BagOpen(b) \/ ~mapOK
     THEN (IF e.res = "refused" THEN (IF new THEN {} ELSE Cl("C21.refused-but-changed", SameTree(s.t, e.t)))
           ELSE Cl("C21.invalid-object-from-bag", e.dry \/ IsAbsent(e.t) \/ Res(e.t, e.lax \/ e.alg \notin ContentAlgs \cup {""}, TRUE).must = {} \/ (~new /\ Res(s.t, e.lax, TRUE).must # {})))
     ELSE LET r == IF new THEN StepCreate(s, x) ELSE StepUpdate(s, x)
          IN r \cup (IF r \cap {"C02.create-refused", "C02.update-refused"} # {} THEN {"C21.good-bag-refused"} ELSE {})
               \cup (IF r \cap {"C02.content", "C02.metadata"} # {} THEN {"C21.not-as-in-bag"} ELSE {})

\* extraction to a bag: e.bag is what is then at the destination, e.plain are
\* the fields of the metadata of the version which fit on a line
StepBagOut(s, e) ==
  LET must == ReadMust(s, e) \/ e.dst \in {"full", "file", "noparent"} IN
  Refusal({"C21.export-accepted"}, {"C21.export-refused"}, must, ReadMay(s, e), e)
  \cup Cl("C21.object-changed", SameTree(s.t, e.t))
  \cup (IF e.res = "refused" THEN Cl("C21.refused-but-wrote", must => e.out = e.before)
        ELSE IF must \/ ~Sound(s.t) THEN {}
        ELSE LET v == VerOf(s.t, e.ver)
                 m == MapAt(s.t, v)
                 w == MetaAt(RJ(s.t), v)
                 b == e.bag
                 Tag(f, x) == IF f \notin Rng(e.plain) THEN TRUE
                              ELSE b.info[f] = x
             IN Cl("C21.bag-not-valid", ~BagBad(b) /\ (BagOpen(b) => b.odd))
                \cup Cl("C21.bag-payload", PayMap(b) = m)
                \cup Cl("C21.bag-identifier", Tag("id", "=" \o Get(RJ(s.t), "id").v))
                \cup Cl("C21.bag-metadata", /\ Tag("message", IF w.message = "=" THEN "none" ELSE w.message)
                                            /\ Tag("name", w.name)
                                            /\ Tag("email", IF Len(w.address) > 8 /\ SubSeq(w.address, 1, 8) = "=mailto:" THEN "=" \o SubSeq(w.address, 9, Len(w.address)) ELSE "none"))
                \cup Cl("C21.bagging-date", ~e.setdate \/ "created" \notin Rng(e.plain) \/ b.info.date = SubSeq(w.created, 1, 11))
                \cup Cl("C21.more-tags", \A i \in DOMAIN b.files : IsPayload(b.files[i].p)
                                          \/ b.files[i].p \in {<<"bagit.txt">>, <<"bag-info.txt">>, <<"manifest-sha512.txt">>, <<"tagmanifest-sha512.txt">>}))

BagOps == {"bagsource", "bagin", "bagout"}
BagBroken(s, e) ==
  Other(e) \cup
  (CASE e.op = "bagsource" -> StepBagSource(s, e)
    [] e.op = "bagin" -> StepBagIn(s, e)
    [] e.op = "bagout" -> StepBagOut(s, e))
=============================================================================
