------------------------------ MODULE OcflShow ------------------------------
(***************************************************************************)
(* The tree shown for an object (Object.tree, ocfl-object.py show).        *)
(*                                                                         *)
(* A display is [first, lines, verdict, exc]; lines are                    *)
(* <<[lvl, last, open, text]>>: lvl 0 for an entry of the object root, 1   *)
(* for an entry of a version directory; last: drawn as the last of its     *)
(* directory; open (lvl 1): drawn below an entry which has others below    *)
(* it.  The display is complete: it has one line for each entry of the     *)
(* root, in one block with the entries of the directory if it is one of    *)
(* the form of a version directory, and nothing else.  Entries which OCFL  *)
(* does not provide for are marked, those which it does are not, and the   *)
(* number of files is that of all files at any depth.                      *)
(*                                                                         *)
(* Left open: what is said of `logs' and `extensions' in the root, of      *)
(* declarations unless the object is valid, of names of inventories which  *)
(* are directories, of what has the name of a version directory but is not *)
(* known to the inventory, and which entry is the content (of how many     *)
(* files, if it is a file) where the inventory does not say.               *)
(***************************************************************************)
EXTENDS OcflRules

Clr(name, ok) == IF ok THEN {} ELSE {name}
Unknown == " <--- ???"
Several == " <--- multiple inventory digests?"

Below(t, pre) ==
  LET n == Len(pre) IN
  {p[n + 1] : p \in {q \in {t.files[i].p : i \in DOMAIN t.files} \cup {t.dirs[i].p : i \in DOMAIN t.dirs} : Len(q) > n /\ SubSeq(q, 1, n) = pre}}
IsDir(t, p) == \E i \in DOMAIN t.dirs : t.dirs[i].p = p
\* A name of the form of a version directory
VName(e) == Len(e) > 1 /\ SubSeq(e, 1, 1) = "v" /\ \A i \in 2..Len(e) : SubSeq(e, i, i) \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Side(t, p) == \E i \in DOMAIN t.files : t.files[i].p = p /\ t.files[i].k = "side"
Decl(t, e) == (\E i \in DOMAIN t.dirs : t.dirs[i].p = <<e>> /\ t.dirs[i].decl) \/ \E i \in DOMAIN t.files : t.files[i].p = <<e>> /\ t.files[i].k = "nam"
FilesBelow(t, p) == Cardinality({i \in DOMAIN t.files : Len(t.files[i].p) > Len(p) /\ SubSeq(t.files[i].p, 1, Len(p)) = p})

\* What is known of the object: its verdict, whether the content directory is
\* certain, and what it is
Facts(t, lax, dflt) ==
  LET r == ObjRes(t, lax, FALSE, dflt)
      inv == HasFile(t, <<"inventory.json">>) /\ ~IsDir(t, <<"inventory.json">>)
      j == FileAt(t, <<"inventory.json">>).j
      i == IF inv THEN InvRes(j, lax, "", dflt) ELSE NoInv
  IN [verdict |-> IF r.must # {} THEN "INVALID" ELSE IF r.unspec THEN "open" ELSE "VALID",
      sure |-> inv /\ i.must = {}, cd |-> i.cd, versions |-> {i.order[k] : k \in DOMAIN i.order}]

\* Texts which may be shown for entry e of the root
RootTexts(t, e, f) ==
  IF e = "inventory.json" THEN (IF IsDir(t, <<e>>) THEN {e, e \o Unknown} ELSE {e})
  ELSE IF Side(t, <<e>>) THEN {e, e \o Several}
  ELSE IF Decl(t, e) THEN (IF f.verdict = "VALID" THEN {e} ELSE {e, e \o Unknown})
  ELSE IF VName(e) THEN (IF IsDir(t, <<e>>) /\ f.sure /\ e \in f.versions THEN {e} ELSE {e, e \o Unknown})
  ELSE IF IsDir(t, <<e>>) /\ e \in {"logs", "extensions"} THEN {e, e \o Unknown}
  ELSE {e \o Unknown}
VersionTexts(t, v, e, f) ==
  LET p == <<v, e>>
      count == e \o " (" \o ToString(FilesBelow(t, p)) \o " files)"
  IN IF e = "inventory.json" THEN (IF IsDir(t, p) THEN {e, e \o Unknown} ELSE {e})
     ELSE IF Side(t, p) THEN {e, e \o Several}
     ELSE IF IsDir(t, p) THEN (IF ~f.sure THEN {count, e \o Unknown} ELSE IF e = f.cd THEN {count} ELSE {e \o Unknown})
     ELSE IF ~f.sure \/ e = f.cd THEN {count, e \o " (1 files)", e \o Unknown}
     ELSE {e \o Unknown}
\* Entries whose names begin like the one of a sidecar, but which are directories
\* or of which nothing is known: texts are not judged
Odd(t, pre, e) == IsDir(t, pre \o <<e>>) /\ \E n \in {"inventory.json."} : Len(e) > Len(n) /\ SubSeq(e, 1, Len(n)) = n

\* One block: lines of one directory against its entries
Block(t, pre, lines, Texts(_)) ==
  LET E == Below(t, pre)
      Judged == {e \in E : ~Odd(t, pre, e)}
      sides == {e \in E : Side(t, pre \o <<e>>)}
      marked == {e \in sides : \E i \in DOMAIN lines : lines[i].text = e \o Several}
      Shown(e) == \E i \in DOMAIN lines : lines[i].text \in {e, e \o Unknown, e \o Several} \/
                     (pre # <<>> /\ lines[i].text \in {e \o " (" \o ToString(n) \o " files)" : n \in 0..(FilesBelow(t, <<>>) + 5)})
  IN Clr("entry-not-shown", \A e \in E : Shown(e))
     \cup Clr("lines-of-nothing", Len(lines) = Cardinality(E))
     \cup Clr("note", \A e \in Judged : Shown(e) => \E i \in DOMAIN lines : lines[i].text \in Texts(e))
     \cup Clr("sidecars-not-marked", (E = Judged /\ sides # {}) => Cardinality(marked) = Cardinality(sides) - 1)
     \cup Clr("branches", \A i \in DOMAIN lines : lines[i].last <=> i = Len(lines))

\* Position of the root lines, and the lines between one and the next
Tops(d) == {i \in DOMAIN d.lines : d.lines[i].lvl = 0}
NextTop(d, i) == LET N == {k \in Tops(d) : k > i} IN IF N = {} THEN Len(d.lines) + 1 ELSE CHOOSE k \in N : \A x \in N : k <= x
ShowBroken(t, dir, lax, dflt, d) ==
  IF d.exc THEN {"no-tree"}
  ELSE
  LET f == TLCEval(Facts(t, lax, dflt))
      tops == SelectSeq(d.lines, LAMBDA x : x.lvl = 0)
      Of(i) == SubSeq(d.lines, i + 1, NextTop(d, i) - 1)
      Entry(e) == {i \in Tops(d) : d.lines[i].text \in {e, e \o Unknown}}
  IN Clr("heading", d.first = "[" \o dir \o "]")
     \cup Clr("verdict", f.verdict = "open" \/ d.verdict = f.verdict)
     \cup Clr("orphan-lines", Len(d.lines) = 0 \/ d.lines[1].lvl = 0)
     \cup Block(t, <<>>, tops, LAMBDA e : RootTexts(t, e, f))
     \cup UNION {LET v == Of(i) IN
                 Clr("branch-of-last", \A k \in DOMAIN v : v[k].open <=> ~d.lines[i].last) : i \in Tops(d)}
     \cup UNION {IF VName(e) /\ IsDir(t, <<e>>) THEN UNION {Block(t, <<e>>, Of(i), LAMBDA x : VersionTexts(t, e, x, f)) : i \in Entry(e)}
                 ELSE Clr("entries-of-no-version", \A i \in Entry(e) : Len(Of(i)) = 0) : e \in Below(t, <<>>)}
=============================================================================
