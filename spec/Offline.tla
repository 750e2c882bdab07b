------------------------------- MODULE Offline -------------------------------
(***************************************************************************)
(* Bundling a project for offline use.                                     *)
(*                                                                         *)
(* Starting from the main file, everything used is put in the bundle:      *)
(* files of the project at their own place, files of a package below       *)
(* libs/<name>/<version>.  Imports of packages are replaced by the place   *)
(* of the package's entry point, and so are, in files of packages, paths   *)
(* relative to the root of the package.  Everything else stays as it is.   *)
(* Bundling fails if something used does not exist, or two things would    *)
(* have the same place.                                                    *)
(***************************************************************************)
EXTENDS Project

VARIABLES todo,          \* places of source files to bundle: <<lib, path>>
          ltodo,         \* packages to bundle
          seen, lseen,
          loaded         \* places of files loaded
work == <<todo, ltodo, seen, lseen, loaded>>
vars == <<fam, pick, refs, work>>

Init == /\ fam \in DOMAIN Fam /\ pick = <<>> /\ refs = <<>>
        /\ todo = {} /\ ltodo = {} /\ seen = {} /\ lseen = {} /\ loaded = {}
Ordered(rs) == SortSeq(rs, LAMBDA x, y : x.b < y.b)
Start == /\ ~Choosing /\ refs = <<>>
         /\ refs' = [i \in 1..NFiles |-> Ordered(All(TextAt(i)))]
         /\ todo' = {<<0, F(fam).main>>}
         /\ UNCHANGED <<fam, pick, ltodo, seen, lseen, loaded>>

Importing(r) == r.how \in {"import", "include"}
Pkg(r) == IF Importing(r) THEN PK!SpecOf(r.s) ELSE PK!Bad
\* Files and packages a file needs.
Local(i)  == {Target(i, refs[i][k].s) : k \in {k \in DOMAIN refs[i] : Importing(refs[i][k]) /\ ~Pkg(refs[i][k]).ok}}
Wanted(i) == {Pkg(refs[i][k]) : k \in {k \in DOMAIN refs[i] : Pkg(refs[i][k]).ok}}
\* A style may be the name of one.
Needed(i, r) == r.how = "load" \/ (r.how = "maybe" /\ IsFile(Src(i).lib, Target(i, r.s)))
Needs(i) == {Target(i, refs[i][k].s) : k \in {k \in DOMAIN refs[i] : Needed(i, refs[i][k])}}

Bundle(at) ==
  LET i == FileAt(at[1], at[2]) IN
  /\ seen' = seen \cup {at}
  /\ IF i = 0 THEN todo' = todo \ {at} /\ UNCHANGED <<ltodo, loaded>>
     ELSE /\ todo' = (todo \cup {<<at[1], p>> : p \in Local(i)}) \ seen'
          /\ ltodo' = ltodo \cup (Wanted(i) \ lseen)
          /\ loaded' = loaded \cup {<<at[1], p>> : p \in Needs(i)}
  /\ UNCHANGED lseen
Vendor(x) ==
  LET l == LibOf(x) IN
  /\ ltodo' = ltodo \ {x} /\ lseen' = lseen \cup {x}
  /\ todo' = IF Usable(l) THEN todo \cup ({<<l, Entry(l)>>} \ seen) ELSE todo
  /\ UNCHANGED <<seen, loaded>>
Next == \/ Choose /\ UNCHANGED work
        \/ Start
        \/ refs # <<>> /\ (\E at \in todo : Bundle(at)) /\ UNCHANGED <<fam, pick, refs>>
        \/ refs # <<>> /\ (\E x \in ltodo : Vendor(x)) /\ UNCHANGED <<fam, pick, refs>>
Spec == Init /\ [][Next]_vars
View == <<fam, pick, refs = <<>>, todo, ltodo, seen, lseen>>
Done == refs # <<>> /\ todo = {} /\ ltodo = {}

\* ---- the bundle ----------------------------------------------------------
LibsDir == <<108, 105, 98, 115>>
VersionText(v) == v[1] \o <<46>> \o v[2] \o <<46>> \o v[3]
Address(lib, path) == IF lib = 0 THEN path ELSE <<LibsDir, Libs[lib].name, VersionText(Libs[lib].v)>> \o path
Places == seen \cup loaded
Clash == \E a, b \in Places : a # b /\ Address(a[1], a[2]) = Address(b[1], b[2])
Missing == \/ \E at \in seen : FileAt(at[1], at[2]) = 0
           \/ \E x \in lseen : ~Usable(LibOf(x))
           \/ \E at \in loaded : ~IsFile(at[1], at[2])
Works == ~Missing /\ ~Clash
Reached == {i \in 1..NFiles : <<Src(i).lib, Src(i).path>> \in seen}

RECURSIVE Slashed(_)
Slashed(p) == IF p = <<>> THEN <<>> ELSE <<47>> \o Head(p) \o Slashed(Tail(p))
\* What a reference is replaced by: the place it leads to, <<>> if it stays.
NewPlace(i, r) ==
  LET x == Pkg(r) IN
  IF x.ok THEN (IF Usable(LibOf(x)) THEN Address(LibOf(x), Entry(LibOf(x))) ELSE <<>>)
  ELSE IF Src(i).lib # 0 /\ Len(r.s) > 0 /\ r.s[1] = 47 /\ (r.how # "maybe" \/ Needed(i, r))
  THEN Address(Src(i).lib, Target(i, r.s))
  ELSE <<>>
\* A package imported whole keeps its name.
NewName(i, r) == IF r.how = "import" /\ Pkg(r).ok /\ ~r.named /\ ~r.items /\ r.direct /\ Usable(LibOf(Pkg(r))) THEN Pkg(r).name ELSE <<>>
RECURSIVE Edits(_, _)
Edits(i, k) ==
  IF k > Len(refs[i]) THEN <<>>
  ELSE LET r == refs[i][k]  p == NewPlace(i, r)  n == NewName(i, r) IN
       (IF p = <<>> THEN <<>> ELSE <<[b |-> r.b, e |-> r.e, s |-> Quote(Slashed(p))]>>)
       \o (IF n = <<>> THEN <<>> ELSE <<[b |-> r.a, e |-> r.a, s |-> <<32, 97, 115, 32>> \o n]>>)
       \o Edits(i, k + 1)
Sound(i) == \A k \in DOMAIN refs[i] : ~refs[i][k].bad

\* ---- what is guaranteed --------------------------------------------------
\* Following the references of bundled files never leaves the bundle.
Closed == Done /\ Works => LET there == {Address(at[1], at[2]) : at \in Places} IN
  \A i \in Reached : Sound(i) =>
    LET rs == All(Apply(TextAt(i), Edits(i, 1), 0)) IN
    /\ Len(rs) = Len(refs[i])
    /\ \A k \in DOMAIN rs : /\ ~Pkg(rs[k]).ok
                            /\ rs[k].how # "maybe" => PO!Join(Address(Src(i).lib, Src(i).path), rs[k].s) \in there
\* Exactly what is reachable is bundled.
RECURSIVE Closure(_, _)
Closure(files, packages) ==
  LET known == {s \in files : FileAt(s[1], s[2]) # 0}
      moref == UNION {LET i == FileAt(s[1], s[2]) IN {<<s[1], p>> : p \in Local(i)} : s \in known}
               \cup {<<LibOf(x), Entry(LibOf(x))>> : x \in {x \in packages : Usable(LibOf(x))}}
      morep == UNION {Wanted(FileAt(s[1], s[2])) : s \in known}
  IN  IF moref \subseteq files /\ morep \subseteq packages THEN <<files, packages>>
      ELSE Closure(files \cup moref, packages \cup morep)
Complete == Done => Closure({<<0, F(fam).main>>}, {}) = <<seen, lseen>>
\* Nothing is put outside of the bundle.
Inside == Done => \A at \in Places : ~IsFile(at[1], at[2]) \/ (\A c \in Range(Address(at[1], at[2])) : c \notin {<<>>, <<46>>, <<46, 46>>})

\* ---- for comparison ------------------------------------------------------
Change(i, r) == <<r.b, r.e, r.a, NewPlace(i, r), Pkg(r).ok, IF Pkg(r).ok THEN Pkg(r).name ELSE <<>>,
                  IF NewName(i, r) # <<>> THEN "must" ELSE IF r.how = "import" /\ Pkg(r).ok /\ ~r.named THEN "may" ELSE "no", r.bad>>
Emit == ~Done \/ PrintT(ToJson(
  <<fam, pick, Works,
    (\E i \in 1..NFiles : ~Sound(i)) \/ (\E at \in seen : FileAt(at[1], at[2]) = 0 /\ IsFile(at[1], at[2])),
    {<<i, Address(Src(i).lib, Src(i).path), [k \in DOMAIN refs[i] |-> Change(i, refs[i][k])]>> : i \in Reached},
    {<<at[1], at[2], Address(at[1], at[2])>> : at \in {at \in loaded : IsFile(at[1], at[2]) /\ at \notin seen}}>>))
=============================================================================
