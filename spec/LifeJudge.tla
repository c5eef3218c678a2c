----------------------------- MODULE LifeJudge -----------------------------
(* Judges traces recorded from the code against OcflSteps.  CASES is a     *)
(* JSON array of [id, trees <<tree>>, steps <<event>>]; e.pt is the number *)
(* of the tree after the step (0: no object there).                        *)
EXTENDS OcflBag, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
NCh == 8
VARIABLES ch, pos
Init == ch \in 1..NCh /\ pos = ch

Tree(c, k) == IF k = 0 THEN Absent ELSE c.trees[k]
\* the tree after step i; it is looked at only once while it stays the same
Ev(c, i, s) == [t |-> IF c.steps[i].pt = s.k /\ ("an" \notin DOMAIN s.t \/ s.t.an.lax = c.steps[i].lax) THEN s.t ELSE Annotated(Tree(c, c.steps[i].pt), c.steps[i].lax)] @@ c.steps[i]
Seen == {"C05.staged-map", "C18.difference", "C22.printed", "C22.traceback"}
Looks == {"read", "validate", "extract", "extractfile", "bagsource", "bagout"}
RECURSIVE Run(_, _, _)
Run(c, i, s) ==
  IF i > Len(c.steps) THEN TRUE
  ELSE LET e == TLCEval(Ev(c, i, s))
           lost == e.op \in {"add", "delete", "rename", "meta", "commit"} /\ e.h \notin DOMAIN s.st
           b == IF lost THEN {} ELSE IF e.op \in BagOps THEN BagBroken(s, e) ELSE Broken(s, e)
       IN /\ \A x \in b : PrintT(ToString(<<"FAIL", c.id, i, x, e.op, e.res>>))
          \* after a broken step the rest of the trace is not judged, unless only
          \* what was seen was wrong
          /\ IF lost \/ ~(b \subseteq Seen \/ e.op \in Looks) THEN TRUE ELSE Run(c, i + 1, TLCEval(After(s, e) @@ [k |-> c.steps[i].pt]))
Judge(c) == /\ PrintT(ToString(<<"R", c.id, "trace">>))
            /\ Run(c, 1, [t |-> IF c.steps = <<>> THEN Absent ELSE Annotated(Tree(c, c.start), c.steps[1].lax), st |-> <<>>, k |-> c.start])
Next == /\ pos <= Len(Cases)
        /\ Judge(Cases[pos])
        /\ pos' = pos + NCh
        /\ ch' = ch
Spec == Init /\ [][Next]_<<ch, pos>>
=============================================================================
