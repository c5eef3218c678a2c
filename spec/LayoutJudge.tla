---------------------------- MODULE LayoutJudge ----------------------------
(* Judges layouts of the library: a case is a layout with parameters and    *)
(* the paths it gave for identifiers                                        *)
(*  [id, layout (a supported name), conf (tagged JSON or t = "none"),       *)
(*   outs <<[how, need, r]>> what became of the parameters,                 *)
(*   maps <<[i, d, o <<[how, r, p]>>]>>]                                    *)
EXTENDS OcflLayout, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
NCh == 8
VARIABLES ch, pos
Init == ch \in 1..NCh /\ pos = ch

ConfClauses(l, c) ==
  UNION {LET o == c.outs[x]
             res == IF c.conf.t = "none" THEN "ok" ELSE ParamsRes(l, c.conf, o.need)
         IN (IF o.r = "exc" THEN {<<o.how, "layout-crash", o.e>>} ELSE {})
            \cup (IF res = "ok" /\ o.r = "refused" THEN {<<o.how, "good-parameters-refused", o.e>>} ELSE {})
            \cup (IF res = "bad" /\ o.r = "ok" THEN {<<o.how, "bad-parameters-accepted", "">>} ELSE {})
         : x \in DOMAIN c.outs}

MapClauses(l, c) ==
  LET good == c.conf.t = "none" \/ ParamsRes(l, c.conf, FALSE) = "ok"
      e == Eff(l, c.conf)
      One(m) ==
        LET want == IF good THEN Map(l, e, m.i, m.d) ELSE Open IN
        UNION {LET o == m.o[x] IN
          (IF o.r = "exc" /\ want.r # "open" THEN {<<o.how, "layout-crash", m.i>>} ELSE {})
          \cup (IF o.r = "path" /\ ~Safe(o.p) THEN {<<o.how, "unsafe-path", m.i>>} ELSE {})
          \cup (IF o.r = "path" /\ want.r = "path" /\ o.p # want.p THEN {<<o.how, "wrong-path", <<m.i, want.p, o.p>>>>} ELSE {})
          \cup (IF o.r = "refused" /\ want.r = "path" THEN {<<o.how, "good-identifier-refused", m.i>>} ELSE {})
          \cup (IF o.r = "path" /\ want.r = "refuse" THEN {<<o.how, "bad-identifier-accepted", m.i>>} ELSE {})
          : x \in DOMAIN m.o}
        \cup (IF \E x \in DOMAIN m.o : \E y \in DOMAIN m.o : m.o[x].r = "path" /\ m.o[y].r = "path" /\ m.o[x].p # m.o[y].p
              THEN {<<"any", "not-deterministic", m.i>>} ELSE {})
      \* observed paths of different identifiers
      Ids == {c.maps[x].i : x \in {x \in DOMAIN c.maps : \E y \in DOMAIN c.maps[x].o : c.maps[x].o[y].r = "path"}}
      Paths == UNION {{c.maps[x].o[y].p : y \in {y \in DOMAIN c.maps[x].o : c.maps[x].o[y].r = "path"}} : x \in DOMAIN c.maps}
  IN UNION {One(c.maps[x]) : x \in DOMAIN c.maps}
     \cup (IF Cardinality(Paths) < Cardinality(Ids) THEN {<<"any", "path-shared", "">>} ELSE {})

Judge(c) ==
  LET l == Canon[c.layout]
      F == ConfClauses(l, c) \cup (IF c.maps = <<>> THEN {} ELSE MapClauses(l, c))
  IN /\ PrintT(ToString(<<"R", c.id, IF c.conf.t = "none" THEN "default" ELSE ParamsRes(l, c.conf, FALSE)>>))
     /\ \A f \in F : PrintT(ToString(<<"FAIL", c.id, f[1], f[2], f[3]>>))

Next == /\ pos <= Len(Cases)
        /\ Judge(Cases[pos])
        /\ pos' = pos + NCh
        /\ ch' = ch
Spec == Init /\ [][Next]_<<ch, pos>>
=============================================================================
