------------------------------ MODULE InvModel ------------------------------
(* Every inventory that can be built with few names by editing: all edits  *)
(* keep it consistent, and refused edits change nothing.  Every transition *)
(* is written out (DUMP) for replay on the code.                           *)
EXTENDS OcflInv, Json, IOUtils
CONSTANTS Digs, Lps, MaxVer, MaxFix, MaxEdits, HeadOnly
VARIABLES x, left
dirs == [p \in UNION {{VName(n, 0) \o "/content/" \o l, VName(n, 0) \o "/content/" \o l \o "__2", VName(n, 0) \o "/content/" \o l \o "__3"} : n \in 1..MaxVer, l \in Lps}
           |-> SubSeq(p, 1, 2)]
low == [d \in Digs \cup {"aa", "bb"} |-> CASE d = "AA" -> "aa" [] d = "BB" -> "bb" [] OTHER -> d]
None == [has |-> FALSE, created |-> "none", message |-> "none", user |-> NoUser]
Vs == {VName(n, 0) : n \in 1..Count(x)}
Es == IF HeadOnly /\ Count(x) > 0 THEN {VName(Count(x), 0)} ELSE Vs
Ops == (IF Count(x) < MaxVer
        THEN {[op |-> "addversion", v |-> [v |-> "", n |-> 0, w |-> 0], pad |-> 0, meta |-> None, state |-> s] :
                s \in {NoEs} \cup (IF Count(x) > 0 THEN {Last(x).state} ELSE {})} ELSE {})
       \cup {[op |-> "addfile", v |-> v, d |-> d, lp |-> p, cp |-> "", dedupe |-> b] : v \in Es, d \in Digs, p \in Lps, b \in BOOLEAN}
       \cup {[op |-> "delete", v |-> v, lp |-> p] : v \in Es, p \in Lps}
       \cup (IF Len(x.fix.bs) < MaxFix THEN {[op |-> "fixtype", a |-> "md5", es |-> <<>>]} ELSE {})
       \cup (IF x.fix.bs # <<>> /\ x.fix.bs[1].es = <<>> THEN {[op |-> "fixdata", a |-> "md5", d |-> "f", cp |-> p] : p \in Paths(x.man.es)} ELSE {})
       \cup {[op |-> "normalise"]}
Place(o) == IF o.op = "addfile" /\ Stores(x, o)
            THEN LET s == Suggested(x, o) IN
                 IF s \notin Paths(x.man.es) THEN s
                 ELSE IF s \o "__2" \notin Paths(x.man.es) THEN s \o "__2" ELSE s \o "__3"
            ELSE "none"
Init == x = EmptyInv /\ left = MaxEdits
Next == \E o \in Ops :
          LET r == Do(x, o, Place(o), dirs, low) IN
            /\ left > 0
            /\ x' = r.x
            /\ left' = left - 1
            /\ r.ok \/ r.x = x
            /\ IF "DUMP" \in DOMAIN IOEnv THEN PrintT(ToJson([x |-> x, o |-> o])) ELSE TRUE
Spec == Init /\ [][Next]_<<x, left>>
Sound == Consistent(x)
\* a version's paths are readable
Readable == \A v \in Vs : \A p \in Paths(Ver(x, v).state.es) : Reads(x, v, p) # {} /\ Cardinality(DigestsFor(Ver(x, v).state.es, p)) = 1
\* nothing is stored for no version (when only the newest is edited)
Used == HeadOnly => \A p \in Paths(x.man.es) : \E d \in DigestsFor(x.man.es, p) : \E v \in Vs : HasDig(Ver(x, v).state.es, d)
\* adding a version or normalising changes no version that is there
Keeps == [][\A v \in Vs : (Count(x') > Count(x) => Ver(x', v) = Ver(x, v)) /\ v \in {y.v : y \in Rng(x'.vers.vs)}]_<<x, left>>
=============================================================================
