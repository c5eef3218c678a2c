----------------------------- MODULE OcflWrite ------------------------------
(***************************************************************************)
(* How a new version may be written so that stopping at any point, also    *)
(* in the middle of a file, does no damage: the files of the new version's *)
(* directory, inventory included, in any order; only then the files of the *)
(* object root, in any order.  Every order and every point is explored,    *)
(* and judged by the clauses that judge the code (FaultSteps).             *)
(***************************************************************************)
EXTENDS ObjectVersions, FaultSteps
CONSTANT Careful       \* FALSE: root and version directory in any order
VARIABLES a, d         \* the write (create, update), state of its files
wvars == <<o, x, s, bad, tr, a, d>>

TreeOf(ob) == TLCEval(Render(ob))
\* the files to write and to remove
Old(t) == {t.files[i] : i \in DOMAIN t.files}
Changed(t, u) == {f.p : f \in Old(u) \ Old(t)}
Gone(t, u) == {f.p : f \in Old(t)} \ {f.p : f \in Old(u)}
ByPath(t, p) == t.files[CHOOSE i \in DOMAIN t.files : t.files[i].p = p]
Cut(f) == CASE f.k = "inv" -> [p |-> f.p, k |-> "inv", c |-> "part of " \o f.c, j |-> [t |-> "x"]]
            [] f.k = "side" -> [f EXCEPT !.c = "part of " \o @, !.form = FALSE]
            [] f.k = "nam" -> [f EXCEPT !.c = "part of " \o @, !.ok = "no"]
            [] OTHER -> [f EXCEPT !.c = "part of " \o @]
\* what is on storage
Disk(t, u) ==
  LET gone == Gone(t, u)
      F == {f \in Old(t) : f.p \notin DOMAIN d \/ d[f.p] = "old"}
           \cup {ByPath(u, p) : p \in {p \in DOMAIN d \ gone : d[p] = "new"}}
           \cup {Cut(ByPath(u, p)) : p \in {p \in DOMAIN d \ gone : d[p] = "half"}}
  IN IF F = {} THEN Absent ELSE IF F = Old(t) THEN t ELSE IF F = Old(u) THEN u ELSE Tree(ToSeq(F))

WInit == Init /\ a = [op |-> "none"] /\ d = <<>>
\* an object is there already
There == /\ ~o.has /\ a.op = "none"
         /\ \E q \in {q \in Asked : q.op = "create"} : o' = Do(q).o
         /\ UNCHANGED <<x, s, bad, tr, a, d>>
\* a write is begun
Begin == /\ a.op = "none"
         /\ \E q \in {q \in Asked : (q.op = "update" /\ o.has) \/ (q.op = "create" /\ ~o.has)} :
              LET r == Do(q)
                  t == TreeOf(o)
                  u == TreeOf(r.o)
              IN /\ r.res = "ok"
                 /\ a' = q
                 /\ d' = [p \in Changed(t, u) \cup Gone(t, u) |-> "old"]
         /\ UNCHANGED <<o, x, s, bad, tr>>
Write == /\ a.op # "none"
         /\ \E p \in DOMAIN d :
              /\ d[p] # "new"
              /\ (Careful /\ Len(p) = 1 /\ p # <<DeclName("1.1")>>) => \A q \in DOMAIN d : Len(q) > 1 => d[q] = "new"
              /\ d' = [d EXCEPT ![p] = IF d[p] = "old" /\ p \notin Gone(TreeOf(o), TreeOf(Do(a).o)) THEN "half" ELSE "new"]
         /\ UNCHANGED <<o, x, s, bad, tr, a>>
WSpec == WInit /\ [][There \/ Begin \/ Write]_wvars
WView == <<o, a, d>>
Over == \A p \in DOMAIN d : d[p] = "new"
Accepts(u) == ~IsAbsent(u) /\ LET r == ObjRes(u, FALSE, TRUE, "1.1") IN r.must = {} /\ ~r.unspec
Harmless == a.op # "none" =>
            LET t == TreeOf(o)
                full == TreeOf(Do(a).o)
                u == TLCEval(Disk(t, full))
            IN /\ BrokenAt(t, u, full, [lib |-> IF Accepts(u) THEN "valid" ELSE "invalid", res |-> IF Over THEN "ok" ELSE "stopped"]) = {}
               /\ Over => Accepts(u)
=============================================================================
