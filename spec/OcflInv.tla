------------------------------ MODULE OcflInv ------------------------------
(***************************************************************************)
(* The interface to the data of an inventory: what is read from it, and    *)
(* what its editing operations do.                                         *)
(*                                                                         *)
(* An inventory is a record of optional parts.  Optional strings are       *)
(* "none" or "=" followed by the value; optional blocks have `has'.        *)
(*   entries   <<[d |-> digest, ps |-> <<path>>]>>                         *)
(*   man       [has, es |-> entries]                                       *)
(*   fix       [has, bs |-> <<[a |-> algorithm, es |-> entries]>>]         *)
(*   vers      [has, vs |-> <<version>>]                                   *)
(*   version   [v |-> name, n |-> number, w |-> digits if padded or 0,     *)
(*              created, message, user |-> [has, name, address],           *)
(*              state |-> [has, es |-> entries]]                           *)
(* Paths are strings here; content paths are <<version, rest>>.            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}
NoEs == [has |-> FALSE, es |-> <<>>]
NoUser == [has |-> FALSE, name |-> "none", address |-> "none"]
EmptyInv == [type |-> "none", alg |-> "none", id |-> "none", head |-> "none", cd |-> "none", man |-> NoEs,
             fix |-> [has |-> FALSE, bs |-> <<>>], vers |-> [has |-> FALSE, vs |-> <<>>]]
Blank(v) == [v |-> v.v, n |-> v.n, w |-> v.w, created |-> "none", message |-> "none", user |-> NoUser, state |-> NoEs]

(***************************************************************************)
(* Equality up to the order of digests and of paths under a digest         *)
(***************************************************************************)
Bag(ps) == {<<p, Cardinality({i \in DOMAIN ps : ps[i] = p})>> : p \in Rng(ps)}
CEs(es) == {<<es[i].d, Bag(es[i].ps)>> : i \in DOMAIN es}
CVers(v) == <<v.v, v.n, v.w, v.created, v.message, v.user, v.state.has, CEs(v.state.es)>>
Canon(x) == <<x.type, x.alg, x.id, x.head, x.cd, x.man.has, CEs(x.man.es), x.fix.has,
              {<<x.fix.bs[i].a, CEs(x.fix.bs[i].es)>> : i \in DOMAIN x.fix.bs}, x.vers.has, {CVers(x.vers.vs[i]) : i \in DOMAIN x.vers.vs}>>
Same(x, y) == Canon(x) = Canon(y)

(***************************************************************************)
(* Reading                                                                 *)
(***************************************************************************)
Paths(es) == UNION {Rng(es[i].ps) : i \in DOMAIN es}
AllPaths(es) == UNION {{<<i, k>> : k \in DOMAIN es[i].ps} : i \in DOMAIN es}
Occurs(es, p) == Cardinality({x \in AllPaths(es) : es[x[1]].ps[x[2]] = p})
DigestsFor(es, p) == {es[i].d : i \in {i \in DOMAIN es : p \in Rng(es[i].ps)}}
HasDig(es, d) == \E i \in DOMAIN es : es[i].d = d
PathsFor(es, d) == IF HasDig(es, d) THEN es[CHOOSE i \in DOMAIN es : es[i].d = d].ps ELSE <<>>
Known(x) == {x.vers.vs[i].v : i \in DOMAIN x.vers.vs}
Ver(x, v) == x.vers.vs[CHOOSE i \in DOMAIN x.vers.vs : x.vers.vs[i].v = v]
Count(x) == Len(x.vers.vs)
\* numbers are distinct
Numbers(x) == {x.vers.vs[i].n : i \in DOMAIN x.vers.vs}
Last(x) == x.vers.vs[CHOOSE i \in DOMAIN x.vers.vs : \A n \in Numbers(x) : x.vers.vs[i].n >= n]
\* content paths through which logical path p of version v can be read
Reads(x, v, p) == UNION {Rng(PathsFor(x.man.es, d)) : d \in DigestsFor(Ver(x, v).state.es, p)}
Cd(x) == IF x.cd = "none" THEN "content" ELSE SubSeq(x.cd, 2, Len(x.cd))

(***************************************************************************)
(* Names of versions                                                       *)
(***************************************************************************)
RECURSIVE Zeros(_)
Zeros(k) == IF k <= 0 THEN "" ELSE "0" \o Zeros(k - 1)
Width(n) == CASE n < 10 -> 1 [] n < 100 -> 2 [] n < 1000 -> 3 [] n < 10000 -> 4 [] OTHER -> 5
VName(n, w) == "v" \o (IF w = 0 THEN "" ELSE Zeros(w - Width(n))) \o ToString(n)
Full(n, w) == w > 0 /\ Width(n) > w - 1
NextVersion(x, pad) == IF Numbers(x) = {} THEN [n |-> 1, w |-> pad] ELSE [n |-> Last(x).n + 1, w |-> Last(x).w]

(***************************************************************************)
(* Editing entries                                                         *)
(***************************************************************************)
AddTo(es, d, p) == IF HasDig(es, d) THEN [i \in DOMAIN es |-> IF es[i].d = d THEN [es[i] EXCEPT !.ps = Append(@, p)] ELSE es[i]]
                   ELSE Append(es, [d |-> d, ps |-> <<p>>])
Nonempty(es) == SelectSeq(es, LAMBDA e : e.ps # <<>>)
\* one occurrence of path p, under digest d, taken away
RECURSIVE DropOne(_, _)
DropOne(ps, p) == IF ps = <<>> THEN <<>> ELSE IF Head(ps) = p THEN Tail(ps) ELSE <<Head(ps)>> \o DropOne(Tail(ps), p)
Drop(es, d, p) == Nonempty([i \in DOMAIN es |-> IF es[i].d = d THEN [es[i] EXCEPT !.ps = DropOne(@, p)] ELSE es[i]])
DropAll(es, P) == Nonempty([i \in DOMAIN es |-> [es[i] EXCEPT !.ps = SelectSeq(@, LAMBDA q : q \notin P)]])
\* entries of the changed digests only: the rest stays even if it was empty
DropFrom(es, d, P) == SelectSeq([i \in DOMAIN es |-> IF es[i].d = d THEN [es[i] EXCEPT !.ps = SelectSeq(@, LAMBDA q : q \notin P)] ELSE es[i]],
                                LAMBDA e : e.d # d \/ e.ps # <<>>)
PutVer(x, v, y) == [x EXCEPT !.vers.vs = TLCEval([i \in DOMAIN x.vers.vs |-> IF x.vers.vs[i].v = v THEN y ELSE x.vers.vs[i]])]

(***************************************************************************)
(* Editing: Do(x, o) = [ok, x]; dirs maps content paths to their first     *)
(* segment, low maps digests to their normal form                          *)
(***************************************************************************)
Yes(x) == [ok |-> TRUE, x |-> x]
No(x) == [ok |-> FALSE, x |-> x]

\* content files of version v with digest d go when nothing refers to them
Release(x, v, d, dirs) ==
  LET ps == Rng(PathsFor(x.man.es, d))
      mine == {p \in ps : dirs[p] = v}
      others == \E i \in DOMAIN x.vers.vs : x.vers.vs[i].v # v /\ HasDig(x.vers.vs[i].state.es, d)
      gone == IF mine = ps /\ others THEN {} ELSE mine
  IN IF ~HasDig(x.man.es, d) \/ gone = {} THEN x
     ELSE [x EXCEPT !.man.es = DropFrom(@, d, gone),
                    !.fix.bs = TLCEval([i \in DOMAIN x.fix.bs |-> [x.fix.bs[i] EXCEPT !.es = DropAll(@, gone)]])]
DoDelete(x, o, dirs) ==
  LET y == Ver(x, o.v)
      d == CHOOSE d \in DigestsFor(y.state.es, o.lp) : TRUE
      z == [y EXCEPT !.state.es = Drop(@, d, o.lp)]
      x2 == PutVer(x, o.v, z)
  IN IF o.lp \notin Paths(y.state.es) THEN No(x)
     ELSE IF HasDig(z.state.es, d) THEN Yes(x2) ELSE Yes(Release(x2, o.v, d, dirs))
\* cp: where the content is stored ("none": not stored again)
Stores(x, o) == PathsFor(x.man.es, o.d) = <<>> \/ ~o.dedupe
DoAddFile(x, o, cp) ==
  LET y == Ver(x, o.v) IN
  IF o.lp \in Paths(y.state.es) THEN No(x)
  ELSE LET x2 == IF Stores(x, o) THEN [x EXCEPT !.man = [has |-> TRUE, es |-> AddTo(@.es, o.d, cp)]] ELSE x
       IN Yes(PutVer(x2, o.v, [y EXCEPT !.state = [has |-> TRUE, es |-> AddTo(@.es, o.d, o.lp)]]))
Suggested(x, o) == o.v \o "/" \o Cd(x) \o "/" \o (IF o.cp = "" THEN o.lp ELSE o.cp)
DoManAdd(x, o) == IF o.cp \in Paths(x.man.es) THEN No(x)
                  ELSE Yes([x EXCEPT !.man = [has |-> TRUE, es |-> AddTo(@.es, o.d, o.cp)]])
\* o.v: [v, n, w] the given name; v = "" for the next; meta: [has, created, message, user]
AddedName(x, o) == IF o.v.v # "" THEN o.v ELSE LET k == NextVersion(x, o.pad) IN [v |-> VName(k.n, k.w), n |-> k.n, w |-> k.w]
DoAddVersion(x, o) ==
  LET k == NextVersion(x, o.pad)
      nm == AddedName(x, o)
      b == Blank(nm)
      b2 == IF o.meta.has THEN [b EXCEPT !.created = o.meta.created, !.message = o.meta.message, !.user = o.meta.user] ELSE b
      b3 == IF o.state.has THEN [b2 EXCEPT !.state = o.state] ELSE b2
  IN IF o.v.v = "" /\ Full(k.n, k.w) THEN No(x)
     ELSE Yes([x EXCEPT !.vers = [has |-> TRUE, vs |-> Append(@.vs, b3)], !.head = "=" \o nm.v])
DoFixType(x, o) == Yes([x EXCEPT !.fix = [has |-> TRUE, bs |-> Append(SelectSeq(@.bs, LAMBDA b : b.a # o.a), [a |-> o.a, es |-> o.es])]])
DoFixData(x, o) == Yes([x EXCEPT !.fix.bs = TLCEval([i \in DOMAIN x.fix.bs |-> IF x.fix.bs[i].a = o.a THEN [x.fix.bs[i] EXCEPT !.es = AddTo(@, o.d, o.cp)] ELSE x.fix.bs[i]])])
\* digests in normal form; entries that become the same are put together
RECURSIVE Lowered(_, _, _)
Lowered(es, low, k) == IF k = 0 THEN <<>>
  ELSE LET r == Lowered(es, low, k - 1)
           d == low[es[k].d]
       IN IF HasDig(r, d) THEN [i \in DOMAIN r |-> IF r[i].d = d THEN [r[i] EXCEPT !.ps = @ \o es[k].ps] ELSE r[i]]
          ELSE Append(r, [d |-> d, ps |-> es[k].ps])
Low(es, low) == TLCEval(Lowered(es, low, Len(es)))
DoNormalise(x, low) == Yes([x EXCEPT !.man.es = Low(@, low),
                                     !.vers.vs = TLCEval([i \in DOMAIN x.vers.vs |-> [x.vers.vs[i] EXCEPT !.state.es = Low(@, low)]])])
DoSet(x, o) == Yes(CASE o.k = "type" -> [x EXCEPT !.type = o.val]
                     [] o.k = "alg" -> [x EXCEPT !.alg = o.val]
                     [] o.k = "id" -> [x EXCEPT !.id = o.val]
                     [] o.k = "head" -> [x EXCEPT !.head = o.val]
                     [] o.k = "cd" -> [x EXCEPT !.cd = o.val])
DoMeta(x, o) == LET y == Ver(x, o.v) IN
  Yes(PutVer(x, o.v, CASE o.k = "created" -> [y EXCEPT !.created = o.val]
                       [] o.k = "message" -> [y EXCEPT !.message = o.val]
                       [] o.k = "name" -> [y EXCEPT !.user = [@ EXCEPT !.has = TRUE, !.name = o.val]]
                       [] o.k = "address" -> [y EXCEPT !.user = [@ EXCEPT !.has = TRUE, !.address = o.val]]))
Do(x, o, cp, dirs, low) ==
  CASE o.op = "set" -> DoSet(x, o)
    [] o.op = "meta" -> DoMeta(x, o)
    [] o.op = "manifest" -> Yes([x EXCEPT !.man.has = TRUE])
    [] o.op = "init" -> Yes([x EXCEPT !.man = [has |-> TRUE, es |-> <<>>], !.vers = [has |-> TRUE, vs |-> <<>>]])
    [] o.op = "state" -> Yes(PutVer(x, o.v, [Ver(x, o.v) EXCEPT !.state.has = TRUE]))
    [] o.op = "user" -> Yes(PutVer(x, o.v, [Ver(x, o.v) EXCEPT !.user.has = TRUE]))
    [] o.op = "addversion" -> DoAddVersion(x, o)
    [] o.op = "manadd" -> DoManAdd(x, o)
    [] o.op = "addfile" -> DoAddFile(x, o, cp)
    [] o.op = "delete" -> DoDelete(x, o, dirs)
    [] o.op = "fixtype" -> DoFixType(x, o)
    [] o.op = "fixdata" -> DoFixData(x, o)
    [] o.op = "normalise" -> DoNormalise(x, low)
    [] OTHER -> Yes(x)   \* copy, roundtrip

(***************************************************************************)
(* Consistency, kept by every edit                                         *)
(***************************************************************************)
Once(es) == \A p \in Paths(es) : Occurs(es, p) = 1
NoneEmpty(es) == \A i \in DOMAIN es : es[i].ps # <<>>
Consistent(x) ==
  /\ Once(x.man.es) /\ NoneEmpty(x.man.es)
  /\ \A i \in DOMAIN x.vers.vs : LET es == x.vers.vs[i].state.es IN
        /\ Once(es) /\ NoneEmpty(es)
        /\ \A k \in DOMAIN es : HasDig(x.man.es, es[k].d)
  /\ \A i \in DOMAIN x.fix.bs : NoneEmpty(x.fix.bs[i].es) /\ Paths(x.fix.bs[i].es) \subseteq Paths(x.man.es)
=============================================================================
