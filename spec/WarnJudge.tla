----------------------------- MODULE WarnJudge ------------------------------
(* Judges recorded validations (verdict and warnings) against OcflRules    *)
(* and OcflWarn.  Cases as for RulesJudge; warnings are judged for what    *)
(* breaks no rule.                                                         *)
EXTENDS OcflWarn, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
NCh == 8
VARIABLES ch, pos
Init == ch \in 1..NCh /\ pos = ch

None == [must |-> {}, open |-> {}]
Judge(c) ==
  LET r == IF c.kind = "inv" THEN InvRes(c.j, c.lax, c.forced, c.dflt) ELSE ObjRes(c.tree, c.lax, c.dig, c.dflt)
      good == r.must = {} /\ ~r.unspec
      w == IF ~good THEN None
           ELSE IF c.kind = "inv" THEN [must |-> InvWarn(c.j, c.lax), open |-> InvOpen(c.j, c.lax)]
           ELSE ObjWarn(c.tree, c.lax)
      Of(o) == IF o.v = "exc" THEN {"no-verdict"}
               ELSE IF r.unspec THEN {}
               ELSE (IF r.must = {} /\ o.v # "valid" THEN {"valid-rejected"} ELSE {})
                    \cup (IF r.must # {} /\ o.v # "invalid" THEN {"broken-accepted"} ELSE {})
                    \cup (IF good THEN WarnClauses(w, o) ELSE {})
      F == UNION {{<<c.outs[i].how, x>> : x \in Of(c.outs[i])} : i \in DOMAIN c.outs}
  IN /\ PrintT(ToString(<<"R", c.id, IF r.must # {} THEN "bad" ELSE IF r.unspec THEN "open" ELSE IF w.must # {} THEN "warn" ELSE "good", {x.c : x \in w.must}>>))
     /\ \A f \in F : PrintT(ToString(<<"FAIL", c.id, f[1], f[2], w.must, w.open>>))

Next == /\ pos <= Len(Cases)
        /\ Judge(Cases[pos])
        /\ pos' = pos + NCh
        /\ ch' = ch
Spec == Init /\ [][Next]_<<ch, pos>>
=============================================================================
