--------------------------- MODULE RootFaultJudge ---------------------------
(* Additions to a storage root that stop part way, or in which a storage    *)
(* operation fails.  CASES: [id, trees, t, full, lax, op, points]: t is the  *)
(* root before, full after the addition when nothing goes wrong, the points  *)
(* [u, kind, res, lib] as in FaultJudge; lib is the verdict of the           *)
(* validation of the whole root u.                                           *)
EXTENDS OcflRoot, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
NCh == 8
VARIABLES ch, pos
Init == ch \in 1..NCh /\ pos = ch
BrokenAt(t, u, full, q) ==
  Clr("C04.others-damaged", FilesOf(t) \subseteq FilesOf(u) /\ DirsOf(t) \subseteq DirsOf(u))
  \cup Clr("C04.outside-place", /\ DirsOf(u) \subseteq DirsOf(full)
                                /\ {f[1] : f \in FilesOf(u)} \subseteq {f[1] : f \in FilesOf(full)})
  \cup Clr("C04.incomplete-accepted", q.lib = "valid" => Unchanged(t, u) \/ FilesOf(u) = FilesOf(full))
  \cup Clr("C04.failure-not-reported", q.res = "ok" => FilesOf(u) = FilesOf(full))
Judge(c) ==
  LET t == c.trees[c.t]
      full == c.trees[c.full]
  IN /\ PrintT(ToString(<<"R", c.id, "fault-" \o c.op>>))
     /\ \A i \in DOMAIN c.points :
          LET q == c.points[i] IN \A x \in BrokenAt(t, c.trees[q.u], full, q) : PrintT(ToString(<<"FAIL", c.id, i, x, q.kind, q.res>>))
Next == /\ pos <= Len(Cases)
        /\ Judge(Cases[pos])
        /\ pos' = pos + NCh
        /\ ch' = ch
Spec == Init /\ [][Next]_<<ch, pos>>
=============================================================================
