----------------------------- MODULE FaultSteps -----------------------------
(* A write from tree t to tree full which stopped, or failed, at tree u    *)
EXTENDS OcflSteps
\* what was committed is as it was: every file and directory below the root,
\* and the root's files apart from the inventory and its sidecar
Committed(t, u, full) ==
  IF IsAbsent(t) THEN TRUE
  ELSE /\ ~IsAbsent(u)
       /\ LET a == FileMap(t)
              b == FileMap(u)
          IN \A p \in DOMAIN a : (Len(p) > 1 => (p \in DOMAIN b /\ b[p] = a[p]))
       /\ \A i \in DOMAIN t.dirs : HasDir(u, t.dirs[i].p)
RootOther(t, u, full) ==
  IF IsAbsent(t) \/ IsAbsent(u) THEN TRUE
  ELSE LET a == FileMap(t)
           b == FileMap(u)
           inv(p) == p[1] = "inventory.json" \/ \E x \in {t, full} : HasInv(x) /\ p[1] = SideName(AlgOf(x))
       IN \A p \in DOMAIN a : (Len(p) = 1 /\ ~inv(p)) => (p \in DOMAIN b /\ b[p] = a[p])
BrokenAt(t, u, full, q) ==
  Cl("C04.committed-version-damaged", Committed(t, u, full))
  \cup Cl("C04.object-root-damaged", RootOther(t, u, full))
  \cup Cl("C04.incomplete-accepted", q.lib = "valid" => (SameTree(u, t) \/ SameTree(u, full)))
  \cup Cl("C04.failure-not-reported", q.res = "ok" => SameTree(u, full))
=============================================================================
