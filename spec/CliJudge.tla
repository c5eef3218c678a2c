------------------------------ MODULE CliJudge ------------------------------
(* Judges recorded uses of ocfl-validate.py and ocfl-sidecar.py.  A case is *)
(* [id, kind, objs <<object tree>>, trees <<root tree>>, lax, evs].         *)
EXTENDS OcflCli, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
NCh == 8
VARIABLES ch, pos
Init == ch \in 1..NCh /\ pos = ch
Broken(c, e, RR) == IF e.op = "validate" THEN CliValidateBroken(c, e, RR) ELSE CliSidecarBroken(c, e)
Judge(c) ==
  LET RR == IF c.kind = "validate" THEN TLCEval([k \in DOMAIN c.objs |-> AboutObject(c.objs[k], c.lax)]) ELSE <<>>
  IN /\ PrintT(ToString(<<"R", c.id, c.kind>>))
     /\ \A i \in DOMAIN c.evs : \A x \in Broken(c, c.evs[i], RR) : PrintT(ToString(<<"FAIL", c.id, c.evs[i].op, x, i>>))
Next == /\ pos <= Len(Cases)
        /\ Judge(Cases[pos])
        /\ pos' = pos + NCh
        /\ ch' = ch
Spec == Init /\ [][Next]_<<ch, pos>>
=============================================================================
