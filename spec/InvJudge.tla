----------------------------- MODULE InvJudge -----------------------------
(* Judges traces of calls of the inventory interface against OcflInv.      *)
(* CASES: [id, x0, low <<[r, n]>>, dirs <<[p, d]>>, steps <<event>>]; an   *)
(* event carries the operation, its outcome (res; got: where a file was stored), the data afterwards *)
(* (x) and everything read from it (obs).                                  *)
EXTENDS OcflInv, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
NCh == 8
VARIABLES ch, pos
Init == ch \in 1..NCh /\ pos = ch
Cl(name, ok) == IF ok THEN {} ELSE {name}
BagIs(ps, S) == Rng(ps) = S /\ Len(ps) = Cardinality(S)

Created(w, g) == w = g \/ (w = "now" /\ g # "none")
\* a version added without a date may have been given one
Fit(y, x) == IF \E i \in DOMAIN y.vers.vs : y.vers.vs[i].created = "now"
             THEN LET new(i) == IF y.vers.vs[i].created # "now" THEN y.vers.vs[i]
                                ELSE [y.vers.vs[i] EXCEPT !.created = IF y.vers.vs[i].v \in Known(x) THEN Ver(x, y.vers.vs[i].v).created ELSE "?"]
                  IN [y EXCEPT !.vers.vs = TLCEval([i \in DOMAIN y.vers.vs |-> new(i)])]
             ELSE y

SpecOf(x) == IF x.type \in {"=https://ocfl.io/1.0/spec/#inventory", "=https://ocfl.io/1.1/spec/#inventory", "=https://ocfl.io/2.0/spec/#inventory"}
             THEN "=" \o SubSeq(x.type, 18, 20) ELSE "none"
\* the path given back for content already there can be any of its paths
ContentOf(x, es, p, got) ==
  IF DigestsFor(es, p) = {} THEN got = "none"
  ELSE LET S == UNION {Rng(PathsFor(x.man.es, d)) : d \in DigestsFor(es, p)} IN IF S = {} THEN got = "none" ELSE got \in {"=" \o q : q \in S}
DigestIs(es, p, got) == IF DigestsFor(es, p) = {} THEN got = "none" ELSE got \in {"=" \o d : d \in DigestsFor(es, p)}
Latest(x, p) == {n \in Numbers(x) : \E i \in DOMAIN x.vers.vs : x.vers.vs[i].n = n /\ p \in Paths(x.vers.vs[i].state.es)}
FindIs(x, f) == LET L == Latest(x, f.lp) IN
  IF L = {} THEN f.v = "none" /\ f.cp = "none"
  ELSE LET y == x.vers.vs[CHOOSE i \in DOMAIN x.vers.vs : x.vers.vs[i].n \in L /\ \A n \in L : x.vers.vs[i].n >= n]
       IN f.v = "=" \o y.v /\ ContentOf(x, y.state.es, f.lp, f.cp)
Obs(x, b) ==
  Cl("C24.spec-version", SpecOf(x) # "none" => b.spec = SpecOf(x))
  \cup Cl("C24.plain-properties", b.alg = x.alg /\ b.id = x.id /\ b.head = x.head /\ b.cd = x.cd /\ b.cduse = Cd(x))
  \cup Cl("C24.manifest", CEs(b.man) = CEs(x.man.es))
  \cup Cl("C24.fixity", {<<b.fix[i].a, CEs(b.fix[i].es)>> : i \in DOMAIN b.fix} = {<<x.fix.bs[i].a, CEs(x.fix.bs[i].es)>> : i \in DOMAIN x.fix.bs})
  \cup Cl("C24.content", {b.content[i].p : i \in DOMAIN b.content} = Paths(x.man.es) /\ \A i \in DOMAIN b.content : b.content[i].d \in DigestsFor(x.man.es, b.content[i].p))
  \cup Cl("C24.content-paths", Bag(b.cpaths) = {<<p, Occurs(x.man.es, p)>> : p \in Paths(x.man.es)})
  \cup Cl("C24.version-directories", BagIs(b.vdirs, Known(x)) /\ Len(b.vnums) = Count(x)
            /\ \A k \in DOMAIN b.vdirs : b.vnums[k] = Ver(x, b.vdirs[k]).n /\ (k > 1 => b.vnums[k] > b.vnums[k - 1]))
  \cup Cl("C24.versions", b.vers # <<>> \/ Count(x) = 0)
  \cup Cl("C24.digest-for-content-path", \A i \in DOMAIN b.cpd : DigestIs(x.man.es, b.cpd[i].p, b.cpd[i].d))
  \cup Cl("C24.content-paths-for-digest", \A i \in DOMAIN b.dcp : /\ Bag(b.dcp[i].ps) = Bag(PathsFor(x.man.es, b.dcp[i].d))
                                                                  /\ IF PathsFor(x.man.es, b.dcp[i].d) = <<>> THEN b.dcp[i].one = "none"
                                                                     ELSE b.dcp[i].one \in {"=" \o p : p \in Rng(PathsFor(x.man.es, b.dcp[i].d))})
  \cup Cl("C24.find-logical-path", \A i \in DOMAIN b.find : FindIs(x, b.find[i]))
  \cup Cl("C24.current-version", x.head = "none" \/ b.cur = SubSeq(x.head, 2, Len(x.head)))
  \cup (IF [k \in DOMAIN b.vers |-> b.vers[k].v] # b.vdirs \/ Rng(b.vdirs) # Known(x) THEN {"C24.versions"}
        ELSE UNION {LET z == b.vers[k]
                        y == Ver(x, z.v) IN
                    Cl("C24.version-number", z.n = y.n)
                    \cup Cl("C24.version-metadata", z.created = y.created /\ z.message = y.message /\ z.name = y.user.name /\ z.address = y.user.address)
                    \cup Cl("C24.version-metadata-object", z.vm.created = y.created /\ z.vm.message = y.message /\ z.vm.name = y.user.name /\ z.vm.address = y.user.address /\ z.vm.id = x.id)
                    \cup Cl("C24.state", CEs(z.state) = CEs(y.state.es))
                    \cup Cl("C24.logical-paths", Bag(z.lps) = {<<p, Occurs(y.state.es, p)>> : p \in Paths(y.state.es)})
                    \cup Cl("C24.digest-for-logical-path", \A i \in DOMAIN z.look : DigestIs(y.state.es, z.look[i].p, z.look[i].d))
                    \cup Cl("C24.content-path-for-logical-path", \A i \in DOMAIN z.look : ContentOf(x, y.state.es, z.look[i].p, z.look[i].cp))
                    : k \in DOMAIN b.vers})

Open(x, e) == e.op = "addversion" /\ e.v.v = "" /\ Count(x) = 0 /\ ~(e.pad = 0 \/ e.pad \in 2..5)
Step(x, e, dirs, low) ==
  LET r == Do(x, e, e.got, dirs, low)
      y == Fit(r.x, e.x)
      stores == e.op = "addfile" /\ e.res = "ok" /\ r.ok /\ Stores(x, e)
  IN Cl("C24.accepted", e.res = "ok" => r.ok)
     \cup Cl("C24.refused", e.res = "refused" => ~r.ok \/ Open(x, e))
     \cup (IF e.res = "refused" THEN Cl("C24.changed-by-refused-edit", e.x = x)
           ELSE IF ~r.ok \/ Open(x, e) THEN {}
           ELSE Cl("C24." \o e.op, Same(e.x, y))
                \cup Cl("C24.stored-path", stores => /\ e.got # "none"
                                                     /\ e.got \notin Paths(x.man.es)
                                                     /\ (Suggested(x, e) \notin Paths(x.man.es) => e.got = Suggested(x, e))
                                                     /\ e.cpdir = e.v /\ e.cpcd = Cd(x))
                \cup Cl("C24.stored-again", (e.op = "addfile" /\ ~stores) => e.got = "none")
                \cup Cl("C24.inconsistent", Consistent(x) /\ e.keeps => Consistent(e.x))
                \cup Cl("C24.returned", e.op = "delete" => e.ret \in {"=" \o d : d \in DigestsFor(Ver(x, e.v).state.es, e.lp)})
                \cup Cl("C24.returned-version", e.op = "addversion" => e.ret = "=" \o AddedName(x, e).v)
                \cup Cl("C24.not-the-same-after-writing-and-reading", e.same))
     \cup Obs(e.x, e.obs)
RECURSIVE Run(_, _, _, _, _)
Run(c, i, x, dirs, low) ==
  IF i > Len(c.steps) THEN TRUE
  ELSE LET e == c.steps[i]
           b == Step(x, e, dirs, low)
       IN /\ \A q \in b : PrintT(ToString(<<"FAIL", c.id, i, q, e.op, e.res>>))
          /\ Run(c, i + 1, e.x, dirs, low)
Fn(l) == TLCEval([p \in {l[i].p : i \in DOMAIN l} |-> l[CHOOSE i \in DOMAIN l : l[i].p = p].q])
Judge(c) == /\ PrintT(ToString(<<"R", c.id, "inventory">>))
            /\ \A q \in Obs(c.x0, c.obs0) : PrintT(ToString(<<"FAIL", c.id, 0, q, "start", "ok">>))
            /\ Run(c, 1, c.x0, Fn(c.dirs), Fn(c.low))
Next == /\ pos <= Len(Cases)
        /\ Judge(Cases[pos])
        /\ pos' = pos + NCh
        /\ ch' = ch
Spec == Init /\ [][Next]_<<ch, pos>>
=============================================================================
