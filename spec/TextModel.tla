---------------------------- MODULE TextModel -------------------------------
(* All dates from the first of FROM to the end of the year UPTO, one after *)
(* the other, with some time of the day: what is written for a moment is   *)
(* read as this moment, successive dates are one day apart.                *)
EXTENDS OcflText, TLCExt
CONSTANTS From, Years
VARIABLES x, n
Times == {0, 1, 59, 60, 3599, 3600, 43200, 86399}
Fracs == {0, 1, 100000, 999999}
Init == \E y \in From : x = [y |-> y, m |-> 1, d |-> 1] /\ n = Days(y, 1, 1)
Next == /\ NextDate(x).y <= 9999
        /\ \E y \in From : y <= NextDate(x).y /\ NextDate(x).y < y + Years
        /\ x' = NextDate(x) /\ n' = n + 1
Spec == Init /\ [][Next]_<<x, n>>
Counted == n = Days(x.y, x.m, x.d)
Dates == IsDate(x.y, x.m, x.d) /\ ReadStamp(DateText(x)) = [ok |-> TRUE, d |-> n, s |-> 0, us |-> 0]
Moments == \A s \in Times : \A us \in Fracs : LET t == WriteStamp(x, s, us) IN WrittenForm(t) /\ ReadStamp(t) = [ok |-> TRUE, d |-> n, s |-> s, us |-> us]
\* the same moment in another zone
Zones == LET t == ReadStamp(DateText(x) \o <<"T", "2", "3", ":", "3", "0", "+", "0", "0", ":", "4", "5">>) IN t = [ok |-> TRUE, d |-> n + 1, s |-> 900, us |-> 0]
NoOther == x.d = DaysIn(x.y, x.m) => ~ReadStamp(DateText([x EXCEPT !.d = @ + 1])).ok
=============================================================================
