--------------------------- MODULE ObjectVersions ---------------------------
(* Instances of OcflObject for TLC *)
EXTENDS OcflObject
TS(y) == [f |-> "full", y |-> y, mo |-> 1, d |-> 2, h |-> 3, mi |-> 4, s |-> 5, tzh |-> 0, tzm |-> 0]
M1 == [created |-> "=2021-01-02T03:04:05Z", message |-> "=m", name |-> "=N", address |-> "=mailto:a@b", ts |-> TS(2021)]
M2 == [created |-> "=2022-01-02T03:04:05Z", message |-> "none", name |-> "none", address |-> "none", ts |-> TS(2022)]
P2 == {<<"a">>, <<"d", "b">>}
P3 == {<<"a">>, <<"d", "b">>, <<"d">>}
OneMeta == {M1}
TwoMeta == {M1, M2}
=============================================================================
