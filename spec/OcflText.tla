----------------------------- MODULE OcflText ------------------------------
(* The small texts of OCFL: timestamps (W3C datetimes), declarations       *)
(* (Namaste files) and digests.  A text that is looked into is a sequence  *)
(* of characters.                                                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

(***************************************************************************)
(* Calendar                                                                *)
(***************************************************************************)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == IF m = 2 THEN IF Leap(y) THEN 29 ELSE 28 ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Before == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
\* days since 1970-01-01
Days(y, m, d) == LET p == y - 1 IN 365 * p + p \div 4 - p \div 100 + p \div 400 + Before[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d - 1 - 719162
IsDate(y, m, d) == y \in 1..9999 /\ m \in 1..12 /\ d \in 1..DaysIn(y, m)
\* successor of a date, [y, m, d]
NextDate(x) == IF x.d < DaysIn(x.y, x.m) THEN [x EXCEPT !.d = @ + 1]
               ELSE IF x.m < 12 THEN [x EXCEPT !.d = 1, !.m = @ + 1] ELSE [y |-> x.y + 1, m |-> 1, d |-> 1]

(***************************************************************************)
(* Reading a timestamp                                                     *)
(*   YYYY | YYYY-MM | YYYY-MM-DD | YYYY-MM-DDThh:mm[:ss[.f+]][Z|(+|-)hh:mm] *)
(***************************************************************************)
Digit == "0" :> 0 @@ "1" :> 1 @@ "2" :> 2 @@ "3" :> 3 @@ "4" :> 4 @@ "5" :> 5 @@ "6" :> 6 @@ "7" :> 7 @@ "8" :> 8 @@ "9" :> 9
Figures == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsNum(s, a, n) == a + n - 1 <= Len(s) /\ \A i \in a..(a + n - 1) : s[i] \in DOMAIN Digit
RECURSIVE Num(_, _, _)
Num(s, a, n) == IF n = 0 THEN 0 ELSE Num(s, a, n - 1) * 10 + Digit[s[a + n - 1]]
Is(s, i, c) == i <= Len(s) /\ s[i] = c
\* number of figures from position a on
RECURSIVE Run(_, _)
Run(s, a) == IF a <= Len(s) /\ s[a] \in DOMAIN Digit THEN 1 + Run(s, a + 1) ELSE 0

Bad == [ok |-> FALSE]
Moment(y, m, d, sec, us) == IF IsDate(y, m, d) THEN [ok |-> TRUE, d |-> Days(y, m, d), s |-> sec, us |-> us] ELSE Bad
\* the first six figures of a fraction as millionths
Micros(s, a, n) == LET k == IF n > 6 THEN 6 ELSE n IN Num(s, a, k) * <<1000000, 100000, 10000, 1000, 100, 10, 1>>[k + 1]
\* shift by an offset; the value of hh:mm+oo:oo is, as the tests of the
\* repository have it, LATER by the offset than that of hh:mm
Shift(x, off) ==
  IF ~x.ok THEN x
  ELSE LET t == x.s + off IN [x EXCEPT !.d = @ + (IF t < 0 THEN -1 ELSE IF t >= 86400 THEN 1 ELSE 0), !.s = (t + 86400) % 86400]
Zone(s, a, x) ==     \* from position a to the end
  IF a > Len(s) THEN x
  ELSE IF Is(s, a, "Z") THEN IF a = Len(s) THEN x ELSE Bad
  ELSE IF (Is(s, a, "+") \/ Is(s, a, "-")) /\ Len(s) = a + 5 /\ IsNum(s, a + 1, 2) /\ Is(s, a + 3, ":") /\ IsNum(s, a + 4, 2)
  THEN LET h == Num(s, a + 1, 2)
           m == Num(s, a + 4, 2)
           o == h * 3600 + m * 60
       IN IF h > 23 \/ m > 59 THEN Bad ELSE Shift(x, IF s[a] = "+" THEN o ELSE -o)
  ELSE Bad
ReadStamp(s) ==
  IF ~IsNum(s, 1, 4) THEN Bad
  ELSE LET y == Num(s, 1, 4) IN
  IF Len(s) = 4 THEN Moment(y, 1, 1, 0, 0)
  ELSE IF ~(Is(s, 5, "-") /\ IsNum(s, 6, 2)) THEN Bad
  ELSE IF Len(s) = 7 THEN Moment(y, Num(s, 6, 2), 1, 0, 0)
  ELSE IF ~(Is(s, 8, "-") /\ IsNum(s, 9, 2)) THEN Bad
  ELSE IF Len(s) = 10 THEN Moment(y, Num(s, 6, 2), Num(s, 9, 2), 0, 0)
  ELSE IF ~(Is(s, 11, "T") /\ IsNum(s, 12, 2) /\ Is(s, 14, ":") /\ IsNum(s, 15, 2)) THEN Bad
  ELSE LET h == Num(s, 12, 2)
           mi == Num(s, 15, 2)
           secs == Is(s, 17, ":") /\ IsNum(s, 18, 2)
           ss == IF secs THEN Num(s, 18, 2) ELSE 0
           frac == secs /\ Is(s, 20, ".") /\ Run(s, 21) > 0
           n == IF frac THEN Run(s, 21) ELSE 0
           rest == IF frac THEN 21 + n ELSE IF secs THEN 20 ELSE 17
       IN IF h > 23 \/ mi > 59 \/ ss > 59 THEN Bad
          ELSE Zone(s, rest, Moment(y, Num(s, 6, 2), Num(s, 9, 2), h * 3600 + mi * 60 + ss, IF frac THEN Micros(s, 21, n) ELSE 0))

\* Writing: YYYY-MM-DDThh:mm:ss[.ffffff]Z, the fraction only if there is one
Fig(n, k) == Figures[1 + ((n \div k) % 10)]
Two(n) == <<Fig(n, 10), Fig(n, 1)>>
Four(n) == <<Fig(n, 1000), Fig(n, 100), Fig(n, 10), Fig(n, 1)>>
DateText(x) == Four(x.y) \o <<"-">> \o Two(x.m) \o <<"-">> \o Two(x.d)
TimeText(s) == Two(s \div 3600) \o <<":">> \o Two((s \div 60) % 60) \o <<":">> \o Two(s % 60)
Six(n) == <<Fig(n, 100000), Fig(n, 10000), Fig(n, 1000), Fig(n, 100), Fig(n, 10), Fig(n, 1)>>
WriteStamp(x, s, us) == DateText(x) \o <<"T">> \o TimeText(s) \o (IF us = 0 THEN <<>> ELSE <<".">> \o Six(us)) \o <<"Z">>
WrittenForm(t) == (Len(t) = 20 \/ (Len(t) = 27 /\ t[20] = ".")) /\ t[Len(t)] = "Z" /\ ReadStamp(t).ok

(***************************************************************************)
(* Declarations.  A character is [c, k], k: "w" may be part of a name      *)
(* (letters, figures, _ . - :), "s" white space, "o" other.                *)
(***************************************************************************)
RECURSIVE Strip(_)
Strip(s) == IF s = <<>> THEN s ELSE IF s[1].k = "s" THEN Strip(Tail(s)) ELSE IF s[Len(s)].k = "s" THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE Text(_)
Text(s) == IF s = <<>> THEN "" ELSE s[1] \o Text(Tail(s))
Chars(s) == [i \in DOMAIN s |-> s[i].c]
\* the part of a file name that comes from the content
Tvalue(s, tr) == LET t == Strip(s) IN
  IF tr = "strip" THEN Text(Chars(t))
  ELSE LET u == SubSeq(t, 1, IF Len(t) > 40 THEN 40 ELSE Len(t)) IN Text([i \in DOMAIN u |-> IF u[i].k = "w" THEN u[i].c ELSE "_"])
NewLine == [c |-> "\n", k |-> "s"]

(***************************************************************************)
(* Digests                                                                 *)
(***************************************************************************)
HexLen == "md5" :> 32 @@ "sha1" :> 40 @@ "sha256" :> 64 @@ "sha512" :> 128 @@ "blake2b-160" :> 40 @@ "blake2b-256" :> 64 @@ "blake2b-384" :> 96 @@ "blake2b-512" :> 128
Short == "sha512-spec-ex" :> 15 @@ "sha256-spec-ex" :> 6
FileAlgs == DOMAIN HexLen \cup DOMAIN Short
StringAlgs == {"md5", "sha1", "sha256", "sha512"}
LowHex == DOMAIN Digit \cup {"a", "b", "c", "d", "e", "f"}
Lower == "A" :> "a" @@ "B" :> "b" @@ "C" :> "c" @@ "D" :> "d" @@ "E" :> "e" @@ "F" :> "f"
Low(c) == IF c \in DOMAIN Lower THEN Lower[c] ELSE c
\* what is written down for a digest whose figures are h
Shown(alg, h) == IF alg \in DOMAIN Short THEN SubSeq(h, 1, Short[alg]) \o <<".", ".", ".">> \o SubSeq(h, Len(h) - 2, Len(h)) ELSE h
DigestForm(alg, s) ==
  IF alg \in DOMAIN Short
  THEN LET n == Short[alg] IN Len(s) = n + 6 /\ \A i \in DOMAIN s : IF i \in (n + 1)..(n + 3) THEN s[i] = "." ELSE s[i] \in LowHex
  ELSE Len(s) = HexLen[alg] /\ \A i \in DOMAIN s : Low(s[i]) \in LowHex
Normal(alg, s) == IF alg \in DOMAIN Short THEN s ELSE [i \in DOMAIN s |-> Low(s[i])]
=============================================================================
