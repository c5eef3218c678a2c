----------------------------- MODULE OcflLayout -----------------------------
(***************************************************************************)
(* The storage layouts: which identifiers and parameters they accept and   *)
(* the path they give.  An identifier is a sequence of Unicode code points,*)
(* a path a sequence of segments which are sequences of code points.       *)
(*   0002  flat direct             0003  hashed n-tuple tree               *)
(*   quoted  flat, percent quoted  tuple  unhashed tuple tree (pairtree)   *)
(*   uuid  quad tree of UUIDs                                              *)
(* Parameters are tagged JSON objects (see OcflRules); numbers carry       *)
(* int (is it written as an integer) and i (its value, if small).          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

LHas(o, k) == \E x \in DOMAIN o.v : o.v[x].k = k
LGet(o, k) == o.v[CHOOSE x \in DOMAIN o.v : o.v[x].k = k].w

Canon == ("0002-flat-direct-storage-layout" :> "0002") @@ ("0002" :> "0002") @@ ("flat-direct" :> "0002")
         @@ ("0003-hash-and-id-n-tuple-storage-layout" :> "0003") @@ ("0003" :> "0003")
         @@ ("nnnn-flat-quoted-storage-layout" :> "quoted") @@ ("flat-quoted" :> "quoted")
         @@ ("nnnn-tuple-tree-layout" :> "tuple") @@ ("nnnn-tuple-tree" :> "tuple")
         @@ ("nnnn-uuid-quadtree" :> "uuid")
FullName == [x \in {"0002", "0003", "quoted", "tuple", "uuid"} |->
              CASE x = "0002" -> "0002-flat-direct-storage-layout"
                [] x = "0003" -> "0003-hash-and-id-n-tuple-storage-layout"
                [] x = "quoted" -> "nnnn-flat-quoted-storage-layout"
                [] x = "tuple" -> "nnnn-tuple-tree-layout"
                [] x = "uuid" -> "nnnn-uuid-quadtree"]
Supported(name) == name \in DOMAIN Canon
HasConfig(l) == l \in {"0003", "tuple", "uuid"}

(***************************************************************************)
(* Characters                                                              *)
(***************************************************************************)
Digit(c) == c \in 48..57
Upper(c) == c \in 65..90
Lower(c) == c \in 97..122
Alnum(c) == Digit(c) \/ Upper(c) \/ Lower(c)
Surrogate(c) == c \in 55296..57343
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Hex(n, up) == IF n < 10 THEN 48 + n ELSE (IF up THEN 55 ELSE 87) + n
Esc(c, mark, up) == FlattenSeq([x \in 1..Len(Utf8(c)) |-> <<mark, Hex(Utf8(c)[x] \div 16, up), Hex(Utf8(c)[x] % 16, up)>>])

DOT == 46
SLASH == 47
Dots == {<<>>, <<DOT>>, <<DOT, DOT>>}

(***************************************************************************)
(* Encodings of an identifier as one name                                  *)
(***************************************************************************)
Enc0003(id) == FlattenSeq([x \in DOMAIN id |-> IF Alnum(id[x]) \/ id[x] \in {45, 95} THEN <<id[x]>> ELSE Esc(id[x], 37, FALSE)])
EncQuoted(id) == FlattenSeq([x \in DOMAIN id |->
    IF Alnum(id[x]) \/ id[x] \in {95, 46, 45, 126} THEN <<id[x]>> ELSE IF id[x] = 32 THEN <<43>> ELSE Esc(id[x], 37, TRUE)])
\* pairtree: hex for  " * + , < = > ? \ ^ |  and all but visible ASCII, then  / : .  ->  = + ,
PairHex == {34, 42, 43, 44, 60, 61, 62, 63, 92, 94, 124}
EncPair(id) == FlattenSeq([x \in DOMAIN id |->
    IF id[x] \in PairHex \/ id[x] < 33 \/ id[x] > 126 THEN Esc(id[x], 94, FALSE)
    ELSE IF id[x] = SLASH THEN <<61>> ELSE IF id[x] = 58 THEN <<43>> ELSE IF id[x] = DOT THEN <<44>> ELSE <<id[x]>>])

\* Inverses, only used to show that the encodings are one-to-one
UnHex(c) == IF c < 58 THEN c - 48 ELSE IF c < 71 THEN c - 55 ELSE c - 87
RECURSIVE Bytes(_, _, _)      \* percent or caret encoded name -> bytes
Bytes(s, mark, f) == IF s = <<>> THEN <<>>
    ELSE IF Head(s) = mark THEN <<16 * UnHex(s[2]) + UnHex(s[3])>> \o Bytes(SubSeq(s, 4, Len(s)), mark, f)
    ELSE <<f[Head(s)]>> \o Bytes(Tail(s), mark, f)
IdBytes(id) == FlattenSeq([x \in DOMAIN id |-> Utf8(id[x])])
Same == [c \in 0..127 |-> c]
Dec0003(s) == Bytes(s, 37, Same)
DecQuoted(s) == Bytes(s, 37, [Same EXCEPT ![43] = 32])
DecPair(s) == Bytes(s, 94, [Same EXCEPT ![61] = SLASH, ![43] = 58, ![44] = DOT])

(***************************************************************************)
(* Parameters                                                              *)
(***************************************************************************)
AlgLen == ("sha512" :> 128) @@ ("sha256" :> 64) @@ ("sha1" :> 40) @@ ("md5" :> 32)
OtherAlgs == {"blake2b-512", "blake2b-384", "blake2b-256", "blake2b-160", "sha512/256", "sha512-spec-ex", "sha256-spec-ex"}

\* "ok", "bad" or "open" for one value
IntIn(w, lo, hi) == IF w.t # "n" THEN "bad"
                    ELSE IF ~w.int THEN "open"            \* 3.0: an integer or not?
                    ELSE IF w.i \in lo..hi THEN "ok" ELSE "bad"
Worst(S) == IF "bad" \in S THEN "bad" ELSE IF "open" \in S THEN "open" ELSE "ok"
Param(o, k) == IF LHas(o, k) THEN LGet(o, k) ELSE [t |-> "none"]

Params0003(o) ==
  LET a == Param(o, "digestAlgorithm")
      s == Param(o, "tupleSize")
      n == Param(o, "numberOfTuples")
      A == IF a.t = "none" THEN "open"
           ELSE IF a.t # "s" THEN "bad"
           ELSE IF a.v \in DOMAIN AlgLen THEN "ok" ELSE IF a.v \in OtherAlgs THEN "open" ELSE "bad"
      S == IF s.t = "none" THEN "open" ELSE IntIn(s, 0, 32)
      N == IF n.t = "none" THEN "open" ELSE IntIn(n, 0, 32)
  IN IF {A, S, N} # {"ok"} THEN Worst({A, S, N})
     ELSE IF (s.i = 0) # (n.i = 0) \/ s.i * n.i > AlgLen[a.v] THEN "bad" ELSE "ok"
ParamsTuple(o) == LET s == Param(o, "tupleSize") IN IF s.t = "none" THEN "open" ELSE IntIn(s, 2, 6)
ParamsUuid(o) == LET p == Param(o, "prefix") IN
                 IF p.t = "none" THEN "open" ELSE IF p.t # "s" \/ p.cp = <<>> THEN "bad" ELSE "ok"
\* needName: the extension name has to be given (it is optional for parameters supplied on creation)
NameOK(l, o, needName) ==
  IF LHas(o, "extensionName") THEN (LET w == LGet(o, "extensionName") IN IF w.t = "s" /\ w.v = FullName[l] THEN "ok" ELSE "bad")
  ELSE IF needName THEN "bad" ELSE "ok"
ParamsRes(l, o, needName) ==
  IF o.t # "o" THEN "bad"
  ELSE Worst({NameOK(l, o, needName),
              CASE l = "0003" -> Params0003(o) [] l = "tuple" -> ParamsTuple(o) [] l = "uuid" -> ParamsUuid(o) [] OTHER -> "ok"})

\* Effective parameters, given accepted parameters or none
Eff(l, o) ==
  LET has == o.t = "o" IN
  CASE l = "0003" -> [alg |-> IF has THEN LGet(o, "digestAlgorithm").v ELSE "sha256",
                      size |-> IF has THEN LGet(o, "tupleSize").i ELSE 3,
                      num |-> IF has THEN LGet(o, "numberOfTuples").i ELSE 3]
    [] l = "tuple" -> [size |-> IF has THEN LGet(o, "tupleSize").i ELSE 2]
    [] l = "uuid" -> [prefix |-> IF has THEN LGet(o, "prefix").cp ELSE <<117, 114, 110, 58, 117, 117, 105, 100, 58>>]
    [] OTHER -> [none |-> TRUE]

(***************************************************************************)
(* The mapping: [r |-> "path"/"refuse"/"open", p |-> path]                 *)
(* dig is the lower-case hex digest of the identifier under the algorithm  *)
(* of the parameters (0003 only)                                           *)
(***************************************************************************)
Path(p) == [r |-> "path", p |-> p]
Refuse == [r |-> "refuse", p |-> <<>>]
Open == [r |-> "open", p |-> <<>>]

Map0002(id) == IF id \in Dots \/ SLASH \in Range(id) THEN Refuse
               ELSE IF 0 \in Range(id) THEN Open ELSE Path(<<id>>)
MapQuoted(id) == IF id \in Dots THEN Refuse ELSE Path(<<EncQuoted(id)>>)
Map0003(id, e, dig) ==
  LET enc == Enc0003(id)
      name == IF Len(enc) > 100 THEN SubSeq(enc, 1, 100) \o <<45>> \o dig ELSE enc
  IN IF id = <<>> THEN Refuse
     ELSE Path([x \in 1..e.num |-> SubSeq(dig, (x - 1) * e.size + 1, x * e.size)] \o <<name>>)
RECURSIVE Chunks(_, _)
Chunks(s, n) == IF Len(s) <= n THEN <<s>> ELSE <<SubSeq(s, 1, n)>> \o Chunks(SubSeq(s, n + 1, Len(s)), n)
MapTuple(id, e) == IF id = <<>> THEN Refuse ELSE LET enc == EncPair(id) IN Path(Chunks(enc, e.size) \o <<enc>>)
UuidShape(s) == /\ Len(s) = 36
                /\ \A x \in 1..36 : IF x \in {9, 14, 19, 24} THEN s[x] = 45 ELSE Digit(s[x]) \/ s[x] \in 97..102
MapUuid(id, e) ==
  LET n == Len(e.prefix)
      s == SubSeq(id, n + 1, Len(id))
      h == SelectSeq(s, LAMBDA c : c # 45)
  IN IF Len(id) < n \/ SubSeq(id, 1, n) # e.prefix \/ ~UuidShape(s) THEN Refuse
     ELSE Path([x \in 1..8 |-> SubSeq(h, 4 * x - 3, 4 * x)])

Map(l, e, id, dig) ==
  IF \E x \in DOMAIN id : Surrogate(id[x]) THEN Open        \* not encodable: no path, or a safe one
  ELSE CASE l = "0002" -> Map0002(id)
         [] l = "0003" -> Map0003(id, e, dig)
         [] l = "quoted" -> MapQuoted(id)
         [] l = "tuple" -> MapTuple(id, e)
         [] l = "uuid" -> MapUuid(id, e)

\* relative, normalised, inside the root
Safe(p) == Len(p) > 0 /\ \A x \in DOMAIN p : p[x] \notin Dots /\ SLASH \notin Range(p[x])
=============================================================================
