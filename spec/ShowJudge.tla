----------------------------- MODULE ShowJudge ------------------------------
(* Judges recorded displays of objects against OcflShow.                   *)
EXTENDS OcflShow, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
NCh == 8
VARIABLES ch, pos
Init == ch \in 1..NCh /\ pos = ch
Judge(c) ==
  LET f == TLCEval(Facts(c.tree, c.lax, c.dflt))
      B(o) == ShowBroken(c.tree, c.dir, c.lax, c.dflt, o) \cup Clr("object-changed", ~o.wrote)
      F == UNION {{<<c.outs[i].how, x>> : x \in B(c.outs[i])} : i \in DOMAIN c.outs}
  IN /\ PrintT(ToString(<<"R", c.id, f.verdict, f.sure>>))
     /\ \A x \in F : PrintT(ToString(<<"FAIL", c.id, x[1], x[2]>>))
Next == /\ pos <= Len(Cases)
        /\ Judge(Cases[pos])
        /\ pos' = pos + NCh
        /\ ch' = ch
Spec == Init /\ [][Next]_<<ch, pos>>
=============================================================================
