----------------------------- MODULE RulesJudge -----------------------------
(* Judges recorded verdicts of the real validators against OcflRules.      *)
(* CASES is a JSON array of                                                *)
(*  [id, kind "obj"/"inv", tree or j, lax, dig, forced, dflt,              *)
(*   outs <<[how, v "valid"/"invalid"/"exc", codes <<E...>>]>>]            *)
EXTENDS OcflRules, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
NCh == 8
VARIABLES ch, pos
Init == ch \in 1..NCh /\ pos = ch

\* kind "total": only that there is a verdict, the same each time, without
\* side effects, is judged (the input is beyond the rules' syntax)
Res(c) == IF c.kind = "total" THEN [must |-> {}, may |-> {}, wild |-> TRUE, unspec |-> TRUE]
          ELSE IF c.kind = "inv"
          THEN InvRes(c.j, c.lax, c.forced, c.dflt)
          ELSE IF c.kind = "objv"   \* arbitrary damage: only the verdict is judged, not the codes
          THEN [ObjRes(c.tree, c.lax, c.dig, c.dflt) EXCEPT !.wild = TRUE]
          ELSE ObjRes(c.tree, c.lax, c.dig, c.dflt)

Clauses(r, o) ==
  IF o.v = "exc" THEN {"no-verdict"}
  ELSE IF o.v = "wrote" THEN {"storage-changed"}
  ELSE IF o.v = "done" THEN {}
  ELSE LET codes == Rng(o.codes) IN
    (IF r.must # {} /\ o.v = "valid" THEN {"broken-accepted"} ELSE {})
    \cup (IF r.must = {} /\ ~r.unspec /\ o.v = "invalid" THEN {"valid-rejected"} ELSE {})
    \cup (IF o.v = "valid" /\ codes # {} THEN {"valid-with-errors"} ELSE {})
    \cup (IF o.v = "invalid" /\ codes = {} THEN {"invalid-without-errors"} ELSE {})
    \cup (IF r.must # {} /\ o.v = "invalid" /\ ~r.wild /\ ~(codes \subseteq (UNION r.must \cup r.may))
          THEN {"code-not-true"} ELSE {})
    \cup (IF Cardinality(r.must) = 1 /\ o.v = "invalid" /\ ~r.wild /\ codes \cap (UNION r.must) = {}
          THEN {"rule-not-named"} ELSE {})

\* outcomes of one group are repetitions of the same validation
Differ(c) == {c.outs[i].how : i \in {i \in DOMAIN c.outs : \E k \in 1..(i - 1) :
                 /\ c.outs[i].grp # "" /\ c.outs[i].grp = c.outs[k].grp
                 /\ \/ c.outs[i].v # c.outs[k].v
                    \/ Rng(c.outs[i].codes) # Rng(c.outs[k].codes)}}
Judge(c) ==
  LET r == Res(c)
      must == r.must
      F == UNION {{<<c.outs[i].how, x>> : x \in Clauses(r, c.outs[i])} : i \in DOMAIN c.outs}
           \cup {<<h, "not-repeatable">> : h \in Differ(c)}
  IN /\ PrintT(ToString(<<"R", c.id, IF must # {} THEN "bad" ELSE IF r.unspec THEN "open" ELSE "good", UNION must>>))
     /\ \A f \in F : PrintT(ToString(<<"FAIL", c.id, f[1], f[2], must, r.may>>))

Next == /\ pos <= Len(Cases)
        /\ Judge(Cases[pos])
        /\ pos' = pos + NCh
        /\ ch' = ch
Spec == Init /\ [][Next]_<<ch, pos>>
=============================================================================
