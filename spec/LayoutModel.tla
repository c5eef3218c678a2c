---------------------------- MODULE LayoutModel ----------------------------
(* Every identifier up to a length over an alphabet of troublesome          *)
(* characters, grown one character at a time: each layout gives a safe      *)
(* path, from which the identifier can be recovered (so that different      *)
(* identifiers never share a path), whatever the digests are.               *)
EXTENDS OcflLayout
CONSTANTS MaxLen
Alphabet == {46, 47, 37, 43, 32, 58, 61, 44, 94, 97, 50, 233, 127, 9, 8364, 128512}
Digests == {[x \in 1..64 |-> 97], [x \in 1..64 |-> 48 + (x % 10)]}
VARIABLES id, dig
Init == id = <<>> /\ dig \in Digests
Next == /\ Len(id) < MaxLen
        /\ \E c \in Alphabet : id' = Append(id, c)
        /\ dig' = dig
Spec == Init /\ [][Next]_<<id, dig>>

P0003 == {[alg |-> "sha256", size |-> 3, num |-> 3], [alg |-> "sha256", size |-> 0, num |-> 0],
          [alg |-> "sha256", size |-> 1, num |-> 1], [alg |-> "sha256", size |-> 2, num |-> 32]}
Res == {<<"0002", Map("0002", [none |-> TRUE], id, dig)>>, <<"quoted", Map("quoted", [none |-> TRUE], id, dig)>>}
       \cup {<<"0003", Map("0003", e, id, dig)>> : e \in P0003}
       \cup {<<"tuple", Map("tuple", [size |-> n], id, dig)>> : n \in 2..6}
Decoded(l, p) == LET last == p[Len(p)] IN
  CASE l = "0002" -> IdBytes(last) [] l = "quoted" -> DecQuoted(last) [] l = "0003" -> Dec0003(last) [] l = "tuple" -> DecPair(last)
SafePaths == \A x \in Res : x[2].r = "path" => Safe(x[2].p)
Recoverable == \A x \in Res : x[2].r = "path" => Decoded(x[1], x[2].p) = IdBytes(id)
\* only the identifiers the extensions exclude are refused
FewRefused == \A x \in Res : x[2].r = "refuse" => \/ id = <<>>
                                                  \/ x[1] \in {"0002", "quoted"} /\ id \in Dots
                                                  \/ x[1] = "0002" /\ 47 \in Range(id)
\* the length of the name is bounded for 0003
Bounded == \A x \in Res : x[1] = "0003" /\ x[2].r = "path" => Len(x[2].p[Len(x[2].p)]) <= 165
=============================================================================
