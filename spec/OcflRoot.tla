------------------------------ MODULE OcflRoot ------------------------------
(***************************************************************************)
(* Storage roots, declaratively.  A root is                                *)
(*   [files |-> <<file>>, dirs |-> <<[p]>>, units |-> <<[p, o, decls]>>]    *)
(* with every file and directory of the tree.  A file has a path p, content *)
(* id c and kind k: "nam" for 0=NAME in the root itself (name, ok),         *)
(* "lay" for ocfl_layout.json (j: tagged JSON or t = "x"), "conf" for       *)
(* extensions/NAME/config.json (name, j), else "c".  The units are the      *)
(* topmost directories with files in them, apart from the root itself and   *)
(* its extensions directory; o is the number of the unit's tree (as in      *)
(* OcflRules) in a pool of trees and decls the files 0=NAME in it.          *)
(* RR[o] = [dig, nodig: results of ObjRes; id: tagged; idok]                *)
(* A root may also be Nothing (no such path) or a plain file.               *)
(***************************************************************************)
EXTENDS OcflRules, OcflLayout

Nothing == [files |-> <<>>, dirs |-> <<>>, units |-> <<>>, nothing |-> TRUE]
IsNothing(t) == "nothing" \in DOMAIN t

ObjDecls == {"0=ocfl_object_" \o v : v \in SpecVersions}
Extn == "extensions"
LayoutFile == "ocfl_layout.json"

Nams(t) == {x \in DOMAIN t.files : t.files[x].k = "nam"}
Lay(t) == {x \in DOMAIN t.files : t.files[x].k = "lay"}
Confs(t, name) == {x \in DOMAIN t.files : t.files[x].k = "conf" /\ t.files[x].name = name}
The(t, X) == t.files[CHOOSE x \in X : TRUE]

LayoutStrings(j) == /\ j.t = "o" /\ LHas(j, "extension") /\ LGet(j, "extension").t = "s"
                    /\ LHas(j, "description") /\ LGet(j, "description").t = "s"

\* Result for the declaration and layout files of the root: broken rules
\* (sets of codes) and whether the verdict is open
StructRes(t, expect) ==
  LET nams == Nams(t)
      one == Cardinality(nams) = 1
      nam == The(t, nams)
      sup == one /\ nam.name \in {"0=ocfl_" \o v : v \in SpecVersions}
      decl == IF ~one \/ ~sup THEN {{"E069"}}
              ELSE IF nam.ok = "no" \/ (expect # "" /\ nam.name # "0=ocfl_" \o expect) THEN {{"E069"}} ELSE {}
      lay == Lay(t)
      j == The(t, lay).j
      ext == LGet(j, "extension").v
      conf == Confs(t, FullName[Canon[ext]])
      pres == ParamsRes(Canon[ext], The(t, conf).j, TRUE)
      layBad == IF lay = {} THEN {}
                ELSE IF ~LayoutStrings(j) THEN {{"E070"}}
                ELSE IF ~Supported(ext) THEN {{"E071"}}
                ELSE IF conf # {} /\ pres = "bad" /\ HasConfig(Canon[ext]) THEN {{"E070"}} ELSE {}
      open == \/ one /\ nam.ok = "loose"
              \/ lay # {} /\ LayoutStrings(j) /\ Supported(ext) /\ conf # {} /\ (pres = "open" \/ (pres = "bad" /\ ~HasConfig(Canon[ext])))
  IN TLCEval([bad |-> decl \cup layBad, open |-> open])

RootSpec(t) == IF The(t, Nams(t)).name = "0=ocfl_1.0" THEN "1.0" ELSE "1.1"

\* The layout in force: that of the root, else the one the caller named
NoLayout == [l |-> "", conf |-> [t |-> "none"]]
LayoutOf(t, told) ==
  IF Lay(t) # {} THEN LET ext == LGet(The(t, Lay(t)).j, "extension").v
                          l == Canon[ext]
                          conf == Confs(t, FullName[l])
                      IN [l |-> l, conf |-> IF conf = {} THEN [t |-> "none"] ELSE The(t, conf).j]
  ELSE IF told = "" THEN NoLayout ELSE IF Supported(told) THEN [l |-> Canon[told], conf |-> [t |-> "none"]] ELSE NoLayout
Place(lay, id, digs) ==
  LET e == Eff(lay.l, lay.conf) IN Map(lay.l, e, id, IF lay.l = "0003" THEN digs[e.alg] ELSE <<>>)

(***************************************************************************)
(* The hierarchy                                                           *)
(***************************************************************************)
InExt(p) == p[1] = Extn
InUnit(t, p) == \E x \in DOMAIN t.units : t.units[x].p = p \/ ProperPrefix(t.units[x].p, p)
EmptyDir(t, p) == (\A x \in DOMAIN t.files : ~ProperPrefix(p, t.files[x].p)) /\ (\A x \in DOMAIN t.dirs : ~ProperPrefix(p, t.dirs[x].p))
Recognised(t) == {x \in DOMAIN t.units : Len(t.units[x].decls) = 1 /\ t.units[x].decls[1] \in ObjDecls}
HierBad(t) ==
  (IF \E x \in DOMAIN t.dirs : ~InExt(t.dirs[x].p) /\ ~InUnit(t, t.dirs[x].p) /\ EmptyDir(t, t.dirs[x].p) THEN {{"E073"}} ELSE {})
  \cup (IF \E x \in DOMAIN t.units : Len(t.units[x].decls) = 0 THEN {{"E072"}} ELSE {})
  \cup (IF \E x \in DOMAIN t.units : Len(t.units[x].decls) > 1 THEN {{"E003"}} ELSE {})
  \cup (IF \E x \in DOMAIN t.units : Len(t.units[x].decls) = 1 /\ t.units[x].decls[1] \notin ObjDecls THEN {{"E004"}} ELSE {})
  \cup (IF \E x \in DOMAIN t.files : Len(t.files[x].p) = 2 /\ InExt(t.files[x].p) THEN {{"E086", "E067", "E112"}} ELSE {})

\* What is known about one object tree
AboutObject(o, lax) ==
  LET inv == HasFile(o, <<"inventory.json">>) /\ IsObj(FileAt(o, <<"inventory.json">>).j)
      j == FileAt(o, <<"inventory.json">>).j
      ir == InvRes(j, lax, "", "1.1")
      idstr == inv /\ Has(j, "id") /\ IsStr(Get(j, "id")) /\ Get(j, "id").v # ""
      decls == {o.files[i].p[1] : i \in {i \in RootFiles(o) : o.files[i].k = "nam"}}
  IN TLCEval([dig |-> ObjRes(o, lax, TRUE, "1.1"), nodig |-> ObjRes(o, lax, FALSE, "1.1"),
      idok |-> idstr /\ ir.must = {} /\ ~ir.unspec, readable |-> idstr /\ ir.must = {},
      id |-> IF idstr THEN Get(j, "id").v ELSE "",
      spec |-> DeclSpec(o), decls |-> SetToSeq(decls)])

(***************************************************************************)
(* Validation, listing, location                                           *)
(***************************************************************************)
Clr(name, ok) == IF ok THEN {} ELSE {name}
ValidateBroken(t, e, RR) ==
  LET s == StructRes(t, e.expect)
      hb == HierBad(t)
      rec == Recognised(t)
      R(x) == IF e.dig THEN RR[t.units[x].o].dig ELSE RR[t.units[x].o].nodig
      bad == {x \in rec : R(x).must # {}}
      \* left open: what the rules leave open, and objects of a later version than the root's
      unsure == {x \in rec : R(x).must = {} /\ (R(x).unspec \/ SpecNum(RR[t.units[x].o].spec) > SpecNum(RootSpec(t)))}
      codes == Rng(e.codes)
      badp == {t.units[x].p : x \in bad}
  IN IF e.res = "exc" THEN {"no-verdict"}
     ELSE IF s.bad # {} THEN Clr("bad-root-accepted", e.res = "invalid")
                             \cup Clr("root-code", e.res # "invalid" \/ (codes # {} /\ (codes \subseteq UNION s.bad \/ s.open)))
     ELSE IF s.open THEN {}
     ELSE Clr("bad-hierarchy-accepted", hb = {} \/ e.res = "invalid")
          \cup Clr("hierarchy-code", codes \subseteq UNION hb /\ \A r \in hb : codes \cap r # {})
          \cup (IF e.objects
                THEN Clr("bad-object-accepted", bad = {} \/ e.res = "invalid")
                     \cup Clr("object-count", e.num = Cardinality(rec))
                     \cup Clr("good-count", e.good \in (Cardinality(rec) - Cardinality(bad) - Cardinality(unsure))..(Cardinality(rec) - Cardinality(bad)))
                     \cup Clr("bad-objects-named", badp \subseteq Rng(e.badp) /\ Rng(e.badp) \subseteq badp \cup {t.units[x].p : x \in unsure})
                ELSE {})
          \cup Clr("good-root-rejected", e.res = "valid" \/ hb # {} \/ (e.objects /\ bad \cup unsure # {}))

ListBroken(t, e, RR) ==
  LET s == StructRes(t, e.expect)
      rec == Recognised(t)
      got == Rng(e.items)
      Id(x) == RR[t.units[x].o].id
  IN IF s.open /\ s.bad = {} THEN {}
     ELSE IF e.res = "exc" THEN {"list-crash"}
     ELSE IF s.bad # {} THEN Clr("bad-root-listed", e.res = "refused")
     ELSE Clr("list-refused", e.res = "ok")
          \cup Clr("list-number", e.res # "ok" \/ "said" \notin DOMAIN e \/ e.said = Len(e.items))
          \cup (IF e.res # "ok" THEN {} ELSE
                Clr("list-once", Cardinality(got) = Len(e.items) /\ Len(e.items) = Cardinality(rec))
                \cup Clr("list-paths", {it.p : it \in got} = {t.units[x].p : x \in rec})
                \cup Clr("list-ids", \A x \in rec : RR[t.units[x].o].idok =>
                                        \A it \in got : it.p = t.units[x].p => it.id = Id(x)))

LocateBroken(t, e) ==
  LET s == StructRes(t, e.expect)
      lay == LayoutOf(t, e.told)
      want == Place(lay, e.idc, e.digs)
  IN IF e.res = "ok" /\ ~Safe(e.p) THEN {"unsafe-path"}
     ELSE IF s.bad # {} THEN (IF e.told # "" THEN {} ELSE Clr("bad-root-located", e.res # "ok"))
     ELSE IF s.open THEN {}
     ELSE IF e.told # "" /\ Lay(t) # {} THEN {}      \* told something else than the root says
     ELSE IF lay.l = "" THEN Clr("located-without-layout", e.res = "refused")
     ELSE IF want.r = "open" THEN {}
     ELSE IF e.res = "exc" THEN {"locate-crash"}
     ELSE IF want.r = "refuse" THEN Clr("located-bad-identifier", e.res = "refused")
     ELSE Clr("locate", e.res = "ok" /\ e.p = want.p)

\* the object at the path e.at of the root is validated (e.said: verdicts
\* printed, e.rc: exit status)
ObjectBroken(t, e, RR) ==
  LET xs == {x \in DOMAIN t.units : t.units[x].p = e.at}
      r == RR[t.units[CHOOSE x \in xs : TRUE].o].dig
  IN IF e.res = "exc" THEN {"no-verdict"}
     ELSE Clr("exit-status", (e.rc = 0) <=> (e.said = <<"VALID">>))
          \cup (IF xs = {} THEN Clr("bad-object-accepted", e.rc # 0 \/ InUnit(t, e.at))
                ELSE Clr("bad-object-accepted", r.must = {} \/ e.rc # 0)
                     \cup Clr("good-object-rejected", r.must # {} \/ r.unspec \/ e.rc = 0))

(***************************************************************************)
(* Adding an object                                                        *)
(***************************************************************************)
FMap(t) == TLCEval([p \in {t.files[x].p : x \in DOMAIN t.files} |-> (CHOOSE y \in Rng(t.files) : y.p = p).c])
FilesOf(t) == {<<t.files[x].p, t.files[x].c>> : x \in DOMAIN t.files}
DirsOf(t) == {t.dirs[x].p : x \in DOMAIN t.dirs}
Unchanged(t, u) == IsNothing(t) = IsNothing(u) /\ FilesOf(t) = FilesOf(u) /\ DirsOf(t) = DirsOf(u)
\* directories of a source object which hold files, at any depth
HasFiles(src, d) == \E x \in DOMAIN src.files : ProperPrefix(d, src.files[x].p)
\* path as strings of the code points is compared by the harness: e.at is the
\* place as segments of the same strings as in trees
Exists(t, p) == (\E x \in DOMAIN t.files : t.files[x].p = p) \/ (\E x \in DOMAIN t.dirs : t.dirs[x].p = p)
FileIn(t, d) == \E x \in DOMAIN t.files : Len(t.files[x].p) = Len(d) + 1 /\ ProperPrefix(d, t.files[x].p)
IsFile(t, p) == \E x \in DOMAIN t.files : t.files[x].p = p
Blocked(t, p, first0) ==
  \/ Exists(t, p)
  \/ \E n \in 1..(Len(p) - 1) : LET d == SubSeq(p, 1, n) IN IsFile(t, d) \/ FileIn(t, d)
  \/ p[1] \in {Extn, LayoutFile}
  \/ first0                                       \* first name begins 0=

\* src is the tree of the object added, with result r; e.wantp is the place
\* the layout gives, as path segments (<<>> if none); e.first0
AddBroken(t, u, e, src, r) ==
  LET s == StructRes(t, e.expect)
      lay == LayoutOf(t, e.told)
      want == IF s.bad = {} /\ lay.l # "" /\ r.idok THEN Place(lay, e.idc, e.digs) ELSE Open
      sure == s.bad = {} /\ ~s.open /\ lay.l # "" /\ r.idok
      \* e.wantp spells want.p with the strings of trees; checked here
      at == e.p
      copied == {<<at \o src.files[x].p, src.files[x].c>> : x \in DOMAIN src.files}
      newdirs == {SubSeq(at, 1, n) : n \in 1..Len(at)} \cup {at \o src.dirs[x].p : x \in {x \in DOMAIN src.dirs : HasFiles(src, src.dirs[x].p)}}
      emptydirs == {at \o src.dirs[x].p : x \in DOMAIN src.dirs}
      declok == r.decls \in {<<d>> : d \in ObjDecls}
      badpath == want.r = "path" /\ ~Safe(want.p)
  IN IF e.res = "exc" THEN {"add-crash"} \cup Clr("refused-add-changed-root", Unchanged(t, u))
     ELSE IF e.res = "refused"
     THEN Clr("refused-add-changed-root", Unchanged(t, u))
          \cup Clr("good-object-refused", ~(/\ sure /\ declok /\ r.dig.must = {} /\ ~r.dig.unspec
                                           /\ SpecNum(r.spec) <= SpecNum(RootSpec(t))
                                           /\ want.r = "path" /\ e.wantcp = want.p /\ ~Blocked(t, e.wantp, e.first0)
                                           /\ ~e.long))
     ELSE Clr("add-to-bad-root", s.bad = {})
          \cup Clr("add-without-layout", s.bad # {} \/ lay.l # "")
          \cup Clr("add-unreadable-object", r.readable)
          \cup Clr("add-undeclared-object", declok)
          \cup Clr("add-path", want.r = "open" \/ (want.r = "path" /\ e.pc = want.p))
          \cup Clr("add-identifier", ~r.idok \/ e.gotid = r.id)
          \cup Clr("add-occupied", ~Blocked(t, at, e.first0))
          \cup Clr("add-copy", FilesOf(u) = FilesOf(t) \cup copied)
          \cup Clr("add-dirs", DirsOf(t) \cup newdirs \subseteq DirsOf(u) /\ DirsOf(u) \subseteq DirsOf(t) \cup newdirs \cup emptydirs)

(***************************************************************************)
(* Creating a root                                                         *)
(***************************************************************************)
DefaultSpec == "1.1"
InitBroken(t, u, e) ==
  LET l == IF e.layout \in DOMAIN Canon THEN Canon[e.layout] ELSE ""
      pr == IF e.lp.t = "none" THEN "ok" ELSE ParamsRes(l, e.lp, FALSE)
      spec == IF e.spec # "" THEN e.spec ELSE IF e.cspec # "" THEN e.cspec ELSE DefaultSpec
      mustRefuse == \/ ~IsNothing(t) \/ ~e.parent \/ spec \notin SpecVersions \/ (e.cspec # "" /\ e.cspec \notin SpecVersions)
                    \/ (e.layout # "" /\ l = "") \/ (l # "" /\ pr = "bad")
      open == (l = "" /\ e.lp.t # "none") \/ pr = "open"
      conf == IF l # "" /\ HasConfig(l) THEN Confs(u, FullName[l]) ELSE {}
      cj == The(u, conf).j
      names == {t1[1] : t1 \in FilesOf(u)}
      wantnames == {<<"0=ocfl_" \o spec>>} \cup (IF l = "" THEN {} ELSE {<<LayoutFile>>})
                   \cup (IF l # "" /\ HasConfig(l) THEN {<<Extn, FullName[l], "config.json">>} ELSE {})
  IN IF e.res = "exc" THEN {"create-crash"} \cup Clr("refused-create-wrote", Unchanged(t, u) /\ e.outside)
     ELSE IF e.res = "refused"
     THEN Clr("refused-create-wrote", Unchanged(t, u) /\ e.outside)
          \cup Clr("good-create-refused", mustRefuse \/ open)
     ELSE IF mustRefuse THEN {"bad-create-accepted"}
     ELSE Clr("create-outside", e.outside)
          \cup Clr("create-files", names = wantnames)
          \cup Clr("create-declaration", Nams(u) # {} /\ The(u, Nams(u)).name = "0=ocfl_" \o spec /\ The(u, Nams(u)).ok = "yes")
          \cup (IF l = "" THEN {} ELSE
                Clr("create-layout-file", Lay(u) # {} /\ LayoutStrings(The(u, Lay(u)).j) /\ LGet(The(u, Lay(u)).j, "extension").v = FullName[l]
                                          /\ LGet(The(u, Lay(u)).j, "description").v # "")
                \cup (IF ~HasConfig(l) THEN {} ELSE
                      Clr("create-params", conf # {} /\ ParamsRes(l, cj, TRUE) = "ok" /\ (pr = "open" \/ Eff(l, cj) = Eff(l, e.lp)))))
          \cup Clr("create-invalid", LET s == StructRes(u, spec) IN s.bad = {} /\ ~s.open /\ HierBad(u) = {})
=============================================================================
