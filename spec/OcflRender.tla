----------------------------- MODULE OcflRender -----------------------------
(***************************************************************************)
(* How an implementation writes an object down.  An object is              *)
(* [id, cd, vs: <<[map, new: {<<content path, content>>}, meta, alg, spec,  *)
(* fix: {<<algorithm, content path>>}]>>]; the result is an object tree as  *)
(* in OcflRules.                                                           *)
(***************************************************************************)
EXTENDS OcflRules
RECURSIVE ToSeq(_), Join(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET y == CHOOSE y \in S : TRUE IN <<y>> \o ToSeq(S \ {y})
Join(g) == IF Len(g) = 1 THEN g[1] ELSE g[1] \o "/" \o Join(Tail(g))
Tok(alg, c) == [raw |-> alg \o ":" \o c, n |-> alg \o ":" \o c, len |-> HexLen[alg], hex |-> TRUE, is |-> <<<<alg, c>>>>]
Str(v) == [t |-> "s", v |-> v, g |-> <<v>>]
PStr(g) == [t |-> "s", v |-> Join(g), g |-> g]
Obj(kvs) == [t |-> "o", v |-> kvs]
KV(k, w) == [k |-> k, w |-> w]
Block(alg, f) ==      \* digest -> paths, f a set of <<path, content>>
  LET C == ToSeq({q[2] : q \in f}) IN
  Obj([i \in DOMAIN C |-> [k |-> Tok(alg, C[i]).raw, d |-> Tok(alg, C[i]),
                           w |-> [t |-> "a", v |-> LET P == ToSeq({q[1] : q \in {q \in f : q[2] = C[i]}}) IN [k \in DOMAIN P |-> PStr(P[k])]]]])
Text(m) == SubSeq(m, 2, Len(m))
MetaKVs(m) ==
  <<KV("created", [t |-> "s", v |-> Text(m.created), g |-> <<Text(m.created)>>, ts |-> m.ts])>>
  \o (IF m.message = "none" THEN <<>> ELSE <<KV("message", Str(Text(m.message)))>>)
  \o (IF m.name = "none" THEN <<>>
      ELSE <<KV("user", Obj(<<KV("name", Str(Text(m.name)))>>
             \o (IF m.address = "none" THEN <<>> ELSE <<KV("address", Str(Text(m.address)) @@ [uri |-> "open"])>>)))>>)
Pairs(f) == {<<p, f[p]>> : p \in DOMAIN f}
Stored(ob, n) == UNION {ob.vs[k].new : k \in 1..n}        \* content paths with their content
V(n) == "v" \o ToString(n)
Inventory(ob, n) ==
  LET h == ob.vs[n]
      fa == ToSeq({q[1] : q \in h.fix})
      Content(p) == (CHOOSE q \in Stored(ob, n) : q[1] = p)[2]
  IN Obj(<<KV("id", Str(ob.id) @@ [uri |-> "open"]),
           KV("type", Str(TypeOf(h.spec))),
           KV("digestAlgorithm", Str(h.alg)),
           KV("head", Str(V(n)))>>
         \o (IF ob.cd = "content" THEN <<>> ELSE <<KV("contentDirectory", Str(ob.cd))>>)
         \o <<KV("manifest", Block(h.alg, Stored(ob, n))),
              KV("versions", Obj([k \in 1..n |-> [k |-> V(k), vn |-> [n |-> k, w |-> 0],
                                                  w |-> Obj(MetaKVs(ob.vs[k].meta) \o <<KV("state", Block(h.alg, Pairs(ob.vs[k].map)))>>)]]))>>
         \o (IF h.fix = {} THEN <<>>
             ELSE <<KV("fixity", Obj([i \in DOMAIN fa |-> KV(fa[i], Block(fa[i], {<<q[2], Content(q[2])>> : q \in {q \in h.fix : q[1] = fa[i]}}))]))>>))
\* what identifies an inventory's bytes (spelled out: the text of a record or
\* a set depends on how it came about)
InvId(ob, n) ==
  "inv:" \o ToString(<<ob.id, ob.cd>> \o
    [k \in 1..n |-> LET v == ob.vs[k] IN
      <<v.alg, v.spec, v.meta.created, v.meta.message, v.meta.name, v.meta.address, ToSeq(Pairs(v.map)), ToSeq(v.new), ToSeq(v.fix)>>])
InvFiles(ob, d, n) ==
  <<[p |-> d \o <<"inventory.json">>, k |-> "inv", c |-> InvId(ob, n), j |-> Inventory(ob, n)],
    [p |-> d \o <<SideName(ob.vs[n].alg)>>, k |-> "side", c |-> "side:" \o InvId(ob, n), alg |-> ob.vs[n].alg, form |-> TRUE, d |-> Tok(ob.vs[n].alg, InvId(ob, n))]>>
ContentFiles(new) == LET P == ToSeq(new) IN [i \in DOMAIN P |-> [p |-> P[i][1], k |-> "c", c |-> P[i][2]]]
RECURSIVE VersionFiles(_, _)
VersionFiles(ob, n) == IF n = 0 THEN <<>> ELSE VersionFiles(ob, n - 1) \o InvFiles(ob, <<V(n)>>, n) \o ContentFiles(ob.vs[n].new)
DeclFile(spec) == [p |-> <<DeclName(spec)>>, k |-> "nam", tv |-> "ocfl_object_" \o spec, c |-> "decl" \o spec, ok |-> "yes"]
DirsOf(fs) == ToSeq(UNION {{SubSeq(fs[i].p, 1, k) : k \in 1..(Len(fs[i].p) - 1)} : i \in DOMAIN fs})
Tree(fs) == LET D == DirsOf(fs) IN
  TLCEval([files |-> fs, dirs |-> [i \in DOMAIN D |-> [p |-> D[i], v |-> Len(D[i]) = 1, decl |-> FALSE, ext |-> "named"]]])
Rendered(ob) ==
  LET n == Len(ob.vs) IN
       Tree(<<DeclFile(ob.vs[n].spec)>> \o InvFiles(ob, <<>>, n) \o VersionFiles(ob, n))
=============================================================================
