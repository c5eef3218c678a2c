----------------------------- MODULE FaultJudge -----------------------------
(* Writes that stop part way, or in which a storage operation fails.       *)
(* CASES: [id, trees, t, full, lax, op, points <<[u, kind, res, lib]>>]:   *)
(* t is the object before the operation, full after it when nothing goes   *)
(* wrong, each u what is on storage when the process ends before some      *)
(* storage operation (res "stopped"), or after the operation was run with  *)
(* one failing storage operation; lib is the validator's verdict on u.     *)
EXTENDS FaultSteps, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
NCh == 8
VARIABLES ch, pos
Init == ch \in 1..NCh /\ pos = ch
Tree(c, k) == IF k = 0 THEN Absent ELSE c.trees[k]

Judge(c) ==
  LET t == Tree(c, c.t)
      full == Tree(c, c.full)
  IN /\ PrintT(ToString(<<"R", c.id, "fault-" \o c.op>>))
     /\ \A i \in DOMAIN c.points :
          LET q == c.points[i] IN \A x \in BrokenAt(t, Tree(c, q.u), full, q) : PrintT(ToString(<<"FAIL", c.id, i, x, q.kind, q.res>>))
Next == /\ pos <= Len(Cases)
        /\ Judge(Cases[pos])
        /\ pos' = pos + NCh
        /\ ch' = ch
Spec == Init /\ [][Next]_<<ch, pos>>
=============================================================================
