------------------------------- MODULE OcflCli -------------------------------
(***************************************************************************)
(* What the command line tools say, against the truth.                     *)
(*                                                                         *)
(* ocfl-validate.py is given paths; each is [k, path, ...]:                *)
(*   k = "missing"                                                         *)
(*   k = "file"    j: the tagged JSON in it (t = "x": no JSON)             *)
(*   k = "dir"     decls <<[name, form]>>, form "object", "root", "other"  *)
(*                 or "odd" (not decided); o: tree of the object, t: of    *)
(*                 the storage root                                        *)
(* It prints status lines <<[typ, path, v, spec]>>, and exits with rc.     *)
(***************************************************************************)
EXTENDS OcflRoot

Forms(p) == {p.decls[i].form : i \in DOMAIN p.decls}
TypesOf(p) ==
  CASE p.k = "missing" -> {"bad"}
    [] p.k = "file" -> {"file"}
    [] OTHER -> IF "odd" \in Forms(p) THEN {"object", "root", "bad"}
                ELSE IF Forms(p) \cap {"object", "root"} = {} THEN {"bad"}
                ELSE Forms(p) \cap {"object", "root"}

\* Truth about one path, if it is taken for typ: "valid", "invalid", "open"
Verdict3(must, unspec) == IF must # {} THEN "invalid" ELSE IF unspec THEN "open" ELSE "valid"
RootTruth(t, RR, dig) ==
  LET s == StructRes(t, "")
      rec == Recognised(t)
      R(x) == IF dig THEN RR[t.units[x].o].dig ELSE RR[t.units[x].o].nodig
      bad == {x \in rec : R(x).must # {}}
      unsure == {x \in rec : R(x).must = {} /\ (R(x).unspec \/ SpecNum(RR[t.units[x].o].spec) > SpecNum(RootSpec(t)))}
  IN IF s.bad # {} THEN "invalid"
     ELSE IF s.open THEN "open"
     ELSE IF HierBad(t) # {} \/ bad # {} THEN "invalid"
     ELSE IF unsure # {} THEN "open" ELSE "valid"
Truth(c, p, typ, RR, dig) ==
  CASE typ = "bad" -> "invalid"
    [] typ = "file" -> LET r == InvRes(p.j, c.lax, "", "1.1") IN Verdict3(r.must, r.unspec)
    [] typ = "object" -> IF p.o = 0 THEN "open" ELSE LET r == IF dig THEN RR[p.o].dig ELSE RR[p.o].nodig IN Verdict3(r.must, r.unspec)
    [] typ = "root" -> IF p.t = 0 THEN "open" ELSE RootTruth(c.trees[p.t], RR, dig)
\* specification version of what was found valid
TrueSpec(c, p, typ, RR) ==
  CASE typ = "object" -> RR[p.o].spec
    [] typ = "file" -> IF IsObj(p.j) /\ Has(p.j, "type") /\ IsStr(Get(p.j, "type")) THEN SpecOfType(Get(p.j, "type").v) ELSE "?"
    [] OTHER -> ""

PathBroken(c, e, i, RR) ==
  LET p == e.paths[i]
      q == e.printed[i]
      truth == IF q.typ \in TypesOf(p) THEN Truth(c, p, q.typ, RR, e.dig) ELSE "open"
  IN Clr("status-of-another-path", q.path = p.path)
     \cup Clr("wrong-type", q.typ \in TypesOf(p))
     \cup Clr("invalid-called-valid", truth = "invalid" => q.v # "VALID")
     \cup Clr("valid-called-invalid", truth = "valid" => q.v = "VALID")
     \cup Clr("wrong-version", ~(truth = "valid" /\ q.v = "VALID" /\ q.typ \in {"object", "file"}) \/ q.spec = TrueSpec(c, p, q.typ, RR))
CliValidateBroken(c, e, RR) ==
  IF e.tb THEN {"traceback"}
  ELSE IF Len(e.printed) # Len(e.paths) THEN {"status-lines"}
  ELSE UNION {PathBroken(c, e, i, RR) : i \in DOMAIN e.paths}
       \cup Clr("exit-status", (e.rc = 0) <=> (\A i \in DOMAIN e.printed : e.printed[i].v = "VALID"))
       \cup Clr("not-quiet", ~e.very \/ e.other = 0)
       \cup Clr("no-reason-given", e.very \/ e.other > 0 \/ \A i \in DOMAIN e.printed : e.printed[i].v # "INVALID")
       \cup Clr("storage-changed", e.same)

(***************************************************************************)
(* ocfl-sidecar.py on directories <<[t, u, asked]>> (trees before, after)  *)
(***************************************************************************)
OwnAlg(t) ==
  IF HasFile(t, <<"inventory.json">>) /\ IsObj(FileAt(t, <<"inventory.json">>).j)
  THEN LET j == FileAt(t, <<"inventory.json">>).j IN
       IF Has(j, "digestAlgorithm") /\ IsStr(Get(j, "digestAlgorithm")) THEN Get(j, "digestAlgorithm").v ELSE ""
  ELSE ""
FilePaths(t) == {t.files[i].p : i \in DOMAIN t.files}
ChangedFiles(t, u) == {p \in FilePaths(t) \cup FilePaths(u) : ~(p \in FilePaths(t) /\ p \in FilePaths(u) /\ FileAt(t, p).c = FileAt(u, p).c)}
SidecarBroken(e, d, t, u) ==
  LET inv == HasFile(t, <<"inventory.json">>)
      j == FileAt(t, <<"inventory.json">>).j
      good == inv /\ LET r == InvRes(j, FALSE, "", "1.1") IN r.must = {} /\ ~r.unspec
      alg == IF e.alg # "" THEN e.alg ELSE OwnAlg(t)
      sure == d.asked /\ alg \in KnownAlgs /\ (IF e.alg # "" THEN inv ELSE good)
      name == <<SideName(alg)>>
      ch == ChangedFiles(t, u)
  IN IF ~d.asked \/ ~inv THEN Clr("sidecar-where-not-asked", ch = {})
     ELSE IF ~sure THEN Clr("other-file-changed", \A p \in ch : Len(p) = 1 /\ HasFile(u, p) /\ FileAt(u, p).k = "side")
     ELSE Clr("other-file-changed", ch \subseteq {name})
          \cup Clr("no-sidecar", e.rc # 0 \/ HasFile(u, name))
          \cup Clr("wrong-sidecar", HasFile(u, name) => (FileAt(u, name).form /\ TrueDigest(alg, FileAt(u, name).d, FileAt(u, <<"inventory.json">>).c)))
CliSidecarBroken(c, e) ==
  UNION {SidecarBroken(e, e.dirs[i], c.objs[e.dirs[i].t], c.objs[e.dirs[i].u]) : i \in DOMAIN e.dirs}
  \cup Clr("good-inventory-refused",
           e.rc = 0 \/ (e.alg # "" /\ e.alg \notin KnownAlgs)
           \/ \E i \in DOMAIN e.dirs : LET t == c.objs[e.dirs[i].t] IN OwnAlg(t) \notin ContentAlgs \/ InvRes(FileAt(t, <<"inventory.json">>).j, FALSE, "", "1.1").must # {})
=============================================================================
