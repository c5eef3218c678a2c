----------------------------- MODULE OcflStore ------------------------------
(***************************************************************************)
(* A constructive model of a storage root: r says how it was created, objs *)
(* where which objects were put, dam what has happened to it behind the    *)
(* library's back (at most one thing).  The tree is rendered from that.    *)
(* Every step is also judged by the declarative specification (OcflRoot);  *)
(* bad holds the clauses broken, which must stay empty.  The steps are     *)
(* written out (DUMP) with a path to them and replayed on the code.        *)
(***************************************************************************)
EXTENDS OcflRoot, Json, IOUtils
CONSTANTS Ids,         \* identifiers of objects
          Asked,       \* further identifiers asked for
          Kinds,       \* kinds of objects: g10, g11 (valid, of that version), bad (content altered), undecl
          Layouts,     \* names of layouts
          Specs,
          Damages, Harms,   \* to the root; to an object (bad: content altered, undecl: declaration removed, remove)
          MaxObj

VARIABLES r, objs, dam, bad, tr, pool
vars == <<r, objs, dam, bad, tr, pool>>
O == INSTANCE OcflRender

(***************************************************************************)
(* Strings and code points (visible ASCII)                                 *)
(***************************************************************************)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Char(c) == SubSeq(Ascii, c - 31, c - 31)
Code == TLCEval([ch \in {Char(c) : c \in 32..126} |-> CHOOSE c \in 32..126 : Char(c) = ch])
Cps(s) == [i \in 1..Len(s) |-> Code[SubSeq(s, i, i)]]
RECURSIVE Text(_)
Text(cs) == IF cs = <<>> THEN "" ELSE Char(Head(cs)) \o Text(Tail(cs))
\* SHA-256 of the identifiers
Sha == ("a" :> "ca978112ca1bbdcafac231b39a23dc4da786eff8147c4e72b9807785afee48bb")
       @@ ("ab" :> "fb8e20fc2e4c3f248c60c39bd652f3c1347298bb977b8b4d5903b85055620603")
       @@ ("abab" :> "a667282675f4876021d392aa6592f39dabf718748c4b738563cb9d5dc8f21f24")
       @@ ("abcd" :> "88d4266fd4e6338d13b845fcf289579d209c897823b9217da3e161936f031589")
       @@ ("a/b" :> "c14cddc033f64b9dea80ea675cf280a015e672516090a5626781153dc68fea11")
       @@ ("a:b" :> "6783a31eabf68ccc0660f935c0826282bdd2241f3a80a9f2d10d59aea9ebb5d8")
       @@ ("extensions" :> "20ef7739e8423f114899b767909a220c5dc4169d73a38196d7a2dbfac5166c4e")
       @@ ("0=x" :> "b111e66a5f4e86bc154f0977d0d64c3495fdcd17a0efd94430856ee64b6d6d7a")
       @@ (".." :> "5ec1f7e700f37c3d0b2981d04855fc34b94aaa15457b05ca571817442d228f81")
Digs(id) == [sha256 |-> Cps(Sha[id])]

(***************************************************************************)
(* The objects there are to add                                            *)
(***************************************************************************)
Created == "2021-01-02T03:04:05Z"
Meta == [created |-> "=" \o Created, message |-> "=m", name |-> "=N", address |-> "=mailto:a@b",
         ts |-> [f |-> "full", y |-> 2021, mo |-> 1, d |-> 2, h |-> 3, mi |-> 4, s |-> 5, tzh |-> 0, tzm |-> 0]]
SpecOf(kind) == IF kind = "g11" THEN "1.1" ELSE "1.0"
Good(id, spec) == O!Rendered([id |-> id, cd |-> "content",
                    vs |-> <<[map |-> (<<"a.txt">> :> "B1"), new |-> {<<<<"v1", "content", "a.txt">>, "B1">>},
                              meta |-> Meta, alg |-> "sha512", spec |-> spec, fix |-> {}]>>])
SourceTree(id, kind) ==
  LET g == Good(id, SpecOf(kind)) IN
  CASE kind = "bad" -> [g EXCEPT !.files = [i \in DOMAIN g.files |-> IF g.files[i].k = "c" THEN [g.files[i] EXCEPT !.c = "B2"] ELSE g.files[i]]]
    [] kind = "undecl" -> [g EXCEPT !.files = SelectSeq(g.files, LAMBDA f : f.k # "nam")]
    [] OTHER -> g
Sources == O!ToSeq(Ids \X Kinds)
Trees0 == TLCEval([k \in DOMAIN Sources |-> SourceTree(Sources[k][1], Sources[k][2])])
Trees == pool.t
RR0 == TLCEval([k \in DOMAIN Sources |-> AboutObject(Trees0[k], FALSE)])
RR == pool.r

(***************************************************************************)
(* Rendering                                                               *)
(***************************************************************************)
Num(n) == [t |-> "n", int |-> TRUE, i |-> n]
StrJ(s) == [t |-> "s", v |-> s, cp |-> Cps(s)]
ConfJ(l) == O!Obj(<<O!KV("extensionName", StrJ(FullName[l]))>>
                  \o CASE l = "0003" -> <<O!KV("digestAlgorithm", StrJ("sha256")), O!KV("tupleSize", Num(3)), O!KV("numberOfTuples", Num(3))>>
                       [] l = "tuple" -> <<O!KV("tupleSize", Num(2))>>
                       [] l = "uuid" -> <<O!KV("prefix", StrJ("urn:uuid:"))>>)
RootDecl(spec) == [p |-> <<"0=ocfl_" \o spec>>, k |-> "nam", name |-> "0=ocfl_" \o spec, ok |-> "yes", c |-> "ocfl_" \o spec]
LayFile(name) == [p |-> <<LayoutFile>>, k |-> "lay", c |-> "lay:" \o name, j |-> O!Obj(<<O!KV("extension", StrJ(name)), O!KV("description", StrJ("d"))>>)]
ConfFile(l) == [p |-> <<Extn, FullName[l], "config.json">>, k |-> "conf", name |-> FullName[l], c |-> "conf:" \o l, j |-> ConfJ(l)]
Plain(p) == [p |-> p, k |-> "c", c |-> "S"]
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
\* where a damage puts a file, or a directory (nothing may be there)
StrayFile == ("stray-ab" :> <<"ab", "f.txt">>) @@ ("stray-x" :> <<"x", "f.txt">>) @@ ("stray-ext" :> <<Extn, "f.txt">>) @@ ("stray-root" :> <<"README">>)
StrayDir == ("empty" :> <<"e">>) @@ ("empty-ab" :> <<"ab", "e">>)
Files(rr, ob, d) ==
  (IF d = "nodecl" THEN <<>> ELSE <<RootDecl(rr.spec)>>)
  \o (IF rr.lay = "" \/ d = "nolayout" THEN <<>> ELSE <<LayFile(IF d = "unknown-layout" THEN "unknown" ELSE FullName[rr.lay])>>)
  \o (IF rr.lay # "" /\ HasConfig(rr.lay) THEN <<ConfFile(rr.lay)>> ELSE <<>>)
  \o (IF d \in DOMAIN StrayFile THEN <<Plain(StrayFile[d])>> ELSE <<>>)
  \o LET obs == O!ToSeq(ob) IN
     Cat([i \in DOMAIN obs |-> LET fs == Trees[obs[i].o].files IN [k \in DOMAIN fs |-> [p |-> obs[i].at \o fs[k].p, k |-> "c", c |-> fs[k].c]]])
Starts0(n) == Len(n) >= 2 /\ SubSeq(n, 1, 2) = "0="
Render(rr, ob, d) ==
  IF ~rr.has THEN Nothing
  ELSE LET fs == Files(rr, ob, d)
           ds == UNION {{SubSeq(fs[i].p, 1, k) : k \in 1..(Len(fs[i].p) - 1)} : i \in DOMAIN fs} \cup (IF d \in DOMAIN StrayDir THEN {StrayDir[d], <<StrayDir[d][1]>>} ELSE {})
           D == O!ToSeq(ds)
           hold == {Front(fs[i].p) : i \in {i \in DOMAIN fs : Len(fs[i].p) > 1 /\ fs[i].p[1] # Extn}}
           top == O!ToSeq({q \in hold : \A q2 \in hold : ~ProperPrefix(q2, q)})
       IN TLCEval([files |-> fs, dirs |-> [i \in DOMAIN D |-> [p |-> D[i]]],
                   units |-> [i \in DOMAIN top |->
                                [p |-> top[i],
                                 o |-> IF \E q \in ob : q.at = top[i] THEN (CHOOSE q \in ob : q.at = top[i]).o ELSE 1,
                                 decls |-> O!ToSeq({fs[k].p[Len(top[i]) + 1] : k \in {k \in DOMAIN fs : Front(fs[k].p) = top[i] /\ Starts0(fs[k].p[Len(fs[k].p)])}})]]])
T == Render(r, objs, dam)

(***************************************************************************)
(* The implementation                                                      *)
(***************************************************************************)
NoRoot == [has |-> FALSE]
Sane == r.has /\ dam \notin {"nodecl", "unknown-layout"}       \* can it be opened?
HasLayout == Sane /\ r.lay # "" /\ dam # "nolayout"
Placed(id) == Map(r.lay, Eff(r.lay, [t |-> "none"]), id, IF r.lay = "0003" THEN Digs(Text(id)).sha256 ELSE <<>>)
PathOf(id) == LET q == Placed(Cps(id)) IN [i \in DOMAIN q.p |-> Text(q.p[i])]
Locatable(id) == HasLayout /\ Placed(Cps(id)).r = "path"
\* objects which are not hidden by a file above them, and can be told to be objects
Seen == {q \in objs : ~(dam = "stray-ab" /\ q.at[1] = "ab") /\ Sources[q.o][2] # "undecl"}
IdAt(p) == Sources[(CHOOSE q \in objs : q.at = p).o][1]
Source(id, kind) == CHOOSE k \in DOMAIN Sources : Sources[k] = <<id, kind>>
Nested(p, q) == p = q \/ ProperPrefix(p, q) \/ ProperPrefix(q, p)
InTheWay(p) == \/ \E q \in objs : Nested(p, q.at)
               \/ dam \in DOMAIN StrayFile /\ (Nested(p, StrayFile[dam]) \/ (Len(StrayFile[dam]) > 1 /\ Nested(p, Front(StrayFile[dam]))))
               \/ \E f \in {q.p : q \in Rng(Files(r, objs, dam))} : ProperPrefix(p, f) \/ p = f \/ ProperPrefix(f, p)
               \/ dam \in DOMAIN StrayDir /\ (p = StrayDir[dam] \/ ProperPrefix(p, StrayDir[dam]))
               \/ p[1] = Extn \/ Starts0(p[1])
Rejected(q, dig) == Sources[q.o][2] = "bad" /\ dig
Codes == (IF dam = "stray-ext" THEN {"E067"} ELSE {}) \cup (IF dam \in {"stray-ab", "stray-x", "undecl"} THEN {"E072"} ELSE {})
         \cup (IF dam \in DOMAIN StrayDir THEN {"E073"} ELSE {})
Do(a) ==
  LET stay == [r |-> r, objs |-> objs, dam |-> dam] IN
  CASE a.op = "create" ->
         IF r.has \/ (a.layout # "" /\ ~Supported(a.layout)) \/ a.spec \notin SpecVersions \cup {""} THEN [res |-> "refused"] @@ stay
         ELSE [res |-> "ok"] @@ [stay EXCEPT !.r = [has |-> TRUE, spec |-> IF a.spec = "" THEN "1.1" ELSE a.spec, lay |-> IF a.layout = "" THEN "" ELSE Canon[a.layout]]]
    [] a.op = "add" ->
         LET id == Sources[a.k][1] kind == Sources[a.k][2] IN
         IF ~Locatable(id) \/ kind \in {"bad", "undecl"} \/ SpecNum(SpecOf(kind)) > SpecNum(r.spec) THEN [res |-> "refused"] @@ stay
         ELSE IF InTheWay(PathOf(id)) THEN [res |-> "refused"] @@ stay
         ELSE [res |-> "ok"] @@ [stay EXCEPT !.objs = @ \cup {[at |-> PathOf(id), o |-> a.k]}]
    [] a.op = "damage" -> [res |-> "ok"] @@ [stay EXCEPT !.dam = a.what]
    [] a.op = "harm" -> [res |-> "ok"] @@ [stay EXCEPT !.dam = a.what,
         !.objs = {q \in objs : q.at # a.at} \cup (IF a.what = "remove" THEN {} ELSE {[at |-> a.at, o |-> Source(IdAt(a.at), a.what)]})]
    [] OTHER -> [res |-> "ok"] @@ stay

(***************************************************************************)
(* What is asked                                                           *)
(***************************************************************************)
CanDamage(d) ==
  /\ dam = "" /\ r.has
  /\ d \in {"nolayout", "unknown-layout"} => r.lay # ""
  /\ d \in DOMAIN StrayFile => \A q \in objs : ~(q.at = Front(StrayFile[d]) \/ ProperPrefix(q.at, Front(StrayFile[d])))
  /\ d \in DOMAIN StrayDir => \A q \in objs : ~(q.at = StrayDir[d] \/ ProperPrefix(q.at, StrayDir[d]) \/ ProperPrefix(StrayDir[d], q.at))
Ops ==
  (IF ~r.has THEN {[op |-> "create", layout |-> l, spec |-> s] : l \in Layouts, s \in Specs} ELSE {[op |-> "create", layout |-> "0002", spec |-> ""]})
  \cup (IF r.has THEN {[op |-> "add", k |-> k, id |-> Sources[k][1], kind |-> Sources[k][2]] : k \in IF Cardinality(objs) < MaxObj THEN DOMAIN Sources ELSE {}} ELSE {})
  \cup {[op |-> "locate", id |-> i] : i \in Ids \cup Asked}
  \cup {[op |-> "list"]}
  \cup (IF r.has THEN {[op |-> "validate", objects |-> ob, dig |-> dg] : ob \in BOOLEAN, dg \in BOOLEAN} ELSE {})
  \cup {[op |-> "damage", what |-> d] : d \in {d \in Damages : CanDamage(d)}}
  \cup (IF dam = "" THEN {[op |-> "harm", what |-> d, at |-> q.at] : d \in Harms, q \in objs} ELSE {})

(***************************************************************************)
(* The events as the declarative specification sees them                   *)
(***************************************************************************)
ItemSeq(S) == O!ToSeq(S)
Broken(t, a, d) ==
  LET u == IF d.r = r /\ d.objs = objs /\ d.dam = dam THEN t ELSE TLCEval(Render(d.r, d.objs, d.dam))
      same == Clr("storage-changed", t = u)
  IN CASE a.op = "create" -> InitBroken(t, u, [layout |-> a.layout, lp |-> [t |-> "none"], spec |-> a.spec, cspec |-> "", parent |-> TRUE, outside |-> TRUE, res |-> d.res])
       [] a.op = "add" ->
            LET id == Sources[a.k][1]
                ok == d.res = "ok"
                p == IF Locatable(id) THEN PathOf(id) ELSE <<>> IN
            AddBroken(t, u, [expect |-> "", told |-> "", idc |-> Cps(id), digs |-> Digs(id), res |-> d.res, gotid |-> IF ok THEN id ELSE "",
                             p |-> IF ok THEN p ELSE <<>>, pc |-> IF ok THEN [i \in DOMAIN p |-> Cps(p[i])] ELSE <<>>,
                             wantp |-> IF p = <<>> THEN <<"?">> ELSE p, wantcp |-> [i \in DOMAIN p |-> Cps(p[i])],
                             first0 |-> p # <<>> /\ Starts0(p[1]), long |-> FALSE], Trees[a.k], RR[a.k])
       [] a.op = "locate" ->
            LocateBroken(t, [expect |-> "", told |-> "", idc |-> Cps(a.id), digs |-> Digs(a.id), res |-> IF Locatable(a.id) THEN "ok" ELSE "refused",
                             p |-> IF Locatable(a.id) THEN Placed(Cps(a.id)).p ELSE <<>>]) \cup same
       [] a.op = "list" ->
            LET items == ItemSeq({[p |-> q.at, id |-> Sources[q.o][1]] : q \in Seen}) IN
            ListBroken(t, [expect |-> "", res |-> IF Sane THEN "ok" ELSE "refused", items |-> IF Sane THEN items ELSE <<>>], RR) \cup same
       [] a.op = "validate" ->
            LET badseen == {q \in Seen : Rejected(q, a.dig)}
                codes == IF dam = "nodecl" THEN {"E069"} ELSE IF dam = "unknown-layout" THEN {"E071"} ELSE Codes IN
            ValidateBroken(t, [expect |-> "", objects |-> a.objects, dig |-> a.dig, codes |-> ItemSeq(codes),
                               res |-> IF codes = {} /\ (badseen = {} \/ ~a.objects) THEN "valid" ELSE "invalid",
                               num |-> IF a.objects THEN Cardinality(Seen) ELSE 0, good |-> IF a.objects THEN Cardinality(Seen \ badseen) ELSE 0,
                               badp |-> IF a.objects THEN ItemSeq({q.at : q \in badseen}) ELSE <<>>], RR) \cup same
       [] OTHER -> {}

Init == pool = [t |-> Trees0, r |-> RR0] /\ r = NoRoot /\ objs = {} /\ dam = "" /\ bad = {} /\ tr = <<>>
Dump(a, stay) == IF "DUMP" \in DOMAIN IOEnv THEN PrintT(ToJson([tr |-> tr, a |-> a, stay |-> stay])) ELSE TRUE
Next == LET t == TLCEval(T) IN \E a \in Ops :
          LET d == Do(a)
              stay == d.r = r /\ d.objs = objs /\ d.dam = dam
          IN /\ Dump(a, stay)
             /\ pool' = pool
             /\ bad' = Broken(t, a, d)
             /\ r' = d.r
             /\ objs' = d.objs
             /\ dam' = d.dam
             /\ tr' = IF stay THEN tr ELSE Append(tr, a)
Spec == Init /\ [][Next]_vars
View == <<r, objs, dam, bad>>

(***************************************************************************)
(* Properties of the model itself                                          *)
(***************************************************************************)
Accepted == bad = {}
\* every object is where its identifier says, and none is inside another (C12)
Located == \A q \in objs : PathOf(Sources[q.o][1]) = q.at
Apart == \A q1 \in objs : \A q2 \in objs : q1 # q2 => ~Nested(q1.at, q2.at)
\* so that identifiers are not shared either
OnePerId == \A q1 \in objs : \A q2 \in objs : Sources[q1.o][1] = Sources[q2.o][1] => q1 = q2
\* as long as nobody interferes the root is valid (C14, C15)
Sound == (r.has /\ dam = "") => /\ StructRes(T, "").bad = {} /\ ~StructRes(T, "").open
                                /\ HierBad(T) = {}
                                /\ {T.units[x].p : x \in Recognised(T)} = {q.at : q \in objs}
                                /\ \A x \in Recognised(T) : RR[T.units[x].o].dig.must = {}
\* objects stay and stay where they are
Keeps == [][(objs \subseteq objs' /\ (r.has => r' = r)) \/ (dam = "" /\ dam' # "")]_vars
=============================================================================
