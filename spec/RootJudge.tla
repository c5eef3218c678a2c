----------------------------- MODULE RootJudge -----------------------------
(* Judges recorded operations on storage roots.  A case is                  *)
(* [id, objs <<object tree>>, trees <<root tree>>, lax, evs <<event>>];     *)
(* an event has op, t (tree before), u (tree after), 0: nothing there.      *)
EXTENDS OcflRoot, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
NCh == 8
VARIABLES ch, pos
Init == ch \in 1..NCh /\ pos = ch

Tree(c, k) == IF k = 0 THEN Nothing ELSE c.trees[k]
Broken(c, e, RR) ==
  LET t == Tree(c, e.t)
      u == Tree(c, e.u)
  IN CASE e.op = "validate" -> ValidateBroken(t, e, RR) \cup Clr("storage-changed", e.t = e.u)
       [] e.op = "list" -> ListBroken(t, e, RR) \cup Clr("storage-changed", e.t = e.u)
       [] e.op = "locate" -> LocateBroken(t, e) \cup Clr("storage-changed", e.t = e.u)
       [] e.op = "add" -> AddBroken(t, u, e, c.objs[e.src], RR[e.src]) \cup Clr("source-changed", e.srcsame)
       [] e.op = "create" -> InitBroken(t, u, e)
       [] e.op = "validate-object" -> ObjectBroken(t, e, RR) \cup Clr("storage-changed", e.t = e.u)
       [] e.op = "show" -> Clr("no-verdict", e.res # "exc") \cup Clr("storage-changed", e.t = e.u)
       [] OTHER -> {}
\* repetitions of the same question about the same tree
SameQ(e, f) == /\ e.op = f.op /\ e.t = f.t /\ e.grp # "" /\ e.grp = f.grp
Differ(c) == {i \in DOMAIN c.evs : \E k \in 1..(i - 1) : SameQ(c.evs[i], c.evs[k]) /\ c.evs[i].ans # c.evs[k].ans}
Judge(c) ==
  LET RR == TLCEval([k \in DOMAIN c.objs |-> AboutObject(c.objs[k], c.lax)])
  IN /\ PrintT(ToString(<<"R", c.id, c.kind>>))
     /\ \A i \in DOMAIN c.evs : \A x \in Broken(c, c.evs[i], RR) : PrintT(ToString(<<"FAIL", c.id, c.evs[i].op, x, i, c.evs[i].res>>))
     /\ \A i \in Differ(c) : PrintT(ToString(<<"FAIL", c.id, c.evs[i].op, "not-repeatable", i>>))
Next == /\ pos <= Len(Cases)
        /\ Judge(Cases[pos])
        /\ pos' = pos + NCh
        /\ ch' = ch
Spec == Init /\ [][Next]_<<ch, pos>>
=============================================================================
