-------------------------------- MODULE Update -------------------------------
(***************************************************************************)
(* Updating the package imports of a project.                              *)
(*                                                                         *)
(* Files waiting to be examined are taken in any order; what they refer to *)
(* is added unless seen before.  Files of the project are rewritten: every *)
(* import of a package names the latest installed version, unless that is  *)
(* not newer.  Files of packages are examined only, and outdated imports   *)
(* in them noted.  What cannot be found is noted as well.                  *)
(*                                                                         *)
(* Whether the packages the project imports are examined in the version    *)
(* imported before or after the update is left open (`take`).              *)
(***************************************************************************)
EXTENDS Project

VARIABLES take,    \* "old", "new"
          todo,    \* places of files to examine: <<lib, path>>
          ltodo,   \* packages to examine
          seen, lseen,
          notes,   \* outdated imports in packages: <<lib, file, old, new>>
          lost     \* how many files and packages were not found
work == <<todo, ltodo, seen, lseen, notes, lost>>
vars == <<fam, pick, refs, take, work>>

Init == /\ fam \in DOMAIN Fam /\ pick = <<>> /\ refs = <<>> /\ take \in {"old", "new"}
        /\ todo = {} /\ ltodo = {} /\ seen = {} /\ lseen = {} /\ notes = {} /\ lost = 0
Start == /\ ~Choosing /\ refs = <<>>
         /\ refs' = [i \in 1..NFiles |-> Uses(TextAt(i))]
         /\ todo' = {<<0, F(fam).main>>}
         /\ UNCHANGED <<fam, pick, take, ltodo, seen, lseen, notes, lost>>

Pkg(r) == PK!SpecOf(r.s)
Local(i)  == {Target(i, refs[i][k].s) : k \in {k \in DOMAIN refs[i] : ~Pkg(refs[i][k]).ok}}
Wanted(i) == {Pkg(refs[i][k]) : k \in {k \in DOMAIN refs[i] : Pkg(refs[i][k]).ok}}
Followed(i) == IF Src(i).lib = 0 /\ take = "new" THEN {Latest(x) : x \in Wanted(i)} ELSE Wanted(i)
Outdated(i) == {x \in Wanted(i) : Latest(x) # x}

\* Examine a file.
Examine(at) ==
  LET i == FileAt(at[1], at[2]) IN
  /\ seen' = seen \cup {at}
  /\ IF i = 0 THEN /\ lost' = lost + 1 /\ todo' = todo \ {at} /\ UNCHANGED <<ltodo, notes>>
     ELSE /\ todo' = (todo \cup {<<at[1], p>> : p \in Local(i)}) \ seen'
          /\ ltodo' = ltodo \cup (Followed(i) \ lseen)
          /\ notes' = notes \cup (IF at[1] = 0 THEN {} ELSE {<<at[1], at[2], x, Latest(x)>> : x \in Outdated(i)})
          /\ UNCHANGED lost
  /\ UNCHANGED lseen
\* Look a package up, to examine it from its entry point.
LookUp(x) ==
  LET l == LibOf(x) IN
  /\ ltodo' = ltodo \ {x} /\ lseen' = lseen \cup {x}
  /\ IF Usable(l) THEN todo' = todo \cup ({<<l, Entry(l)>>} \ seen) /\ UNCHANGED lost
     ELSE lost' = lost + 1 /\ UNCHANGED todo
  /\ UNCHANGED <<seen, notes>>
Next == \/ Choose /\ UNCHANGED <<take, work>>
        \/ Start
        \/ refs # <<>> /\ (\E at \in todo : Examine(at)) /\ UNCHANGED <<fam, pick, refs, take>>
        \/ refs # <<>> /\ (\E x \in ltodo : LookUp(x)) /\ UNCHANGED <<fam, pick, refs, take>>
Spec == Init /\ [][Next]_vars
View == <<fam, pick, refs = <<>>, take, todo, ltodo, seen, lseen>>

Done == refs # <<>> /\ todo = {} /\ ltodo = {}
\* Source files of the project that were examined.
Reached == {i \in 1..NFiles : Src(i).lib = 0 /\ <<0, Src(i).path>> \in seen}

\* ---- what is guaranteed --------------------------------------------------
\* The files reachable at all are the ones examined, whatever the order.
RECURSIVE Closure(_, _)
Closure(files, packages) ==
  LET known == {s \in files : FileAt(s[1], s[2]) # 0}
      moref == UNION {LET i == FileAt(s[1], s[2]) IN {<<s[1], p>> : p \in Local(i)} : s \in known}
               \cup {<<LibOf(x), Entry(LibOf(x))>> : x \in {x \in packages : Usable(LibOf(x))}}
      morep == UNION {Followed(FileAt(s[1], s[2])) : s \in known}
  IN  IF moref \subseteq files /\ morep \subseteq packages THEN <<files, packages>>
      ELSE Closure(files \cup moref, packages \cup morep)
Complete == Done => Closure({<<0, F(fam).main>>}, {}) = <<seen, lseen>>
\* Never to an older or missing version.
Upward == refs # <<>> => \A i \in 1..NFiles : \A x \in Wanted(i) :
  Latest(x) = x \/ (LibOf(Latest(x)) # 0 /\ PK!Order(Latest(x).v, x.v) > 0)
\* Doing it again changes nothing.
RECURSIVE Edits(_, _)
Edits(rs, k) == IF k > Len(rs) THEN <<>>
                ELSE LET x == Pkg(rs[k]) IN
                     IF x.ok /\ Latest(x) # x
                     THEN <<[b |-> rs[k].b, e |-> rs[k].e, s |-> Quote(PK!Printed(Latest(x)))]>> \o Edits(rs, k + 1)
                     ELSE Edits(rs, k + 1)
Settled == Done => \A i \in Reached :
  Edits(refs[i], 1) # <<>> => Edits(Uses(Apply(TextAt(i), Edits(refs[i], 1), 0)), 1) = <<>>

\* ---- for comparison ------------------------------------------------------
\* Literals to change: place, package named afterwards, whether it may as well
\* be left (the statement is malformed).
RECURSIVE Changes(_, _)
Changes(rs, k) == IF k > Len(rs) THEN <<>>
                  ELSE LET x == Pkg(rs[k]) IN
                       IF x.ok /\ Latest(x) # x
                       THEN <<<<rs[k].b, rs[k].e, PK!Printed(Latest(x)), rs[k].bad>>>> \o Changes(rs, k + 1)
                       ELSE Changes(rs, k + 1)
Times(i, x) == Cardinality({k \in DOMAIN refs[i] : Pkg(refs[i][k]) = x})
Emit == ~Done \/ PrintT(ToJson(
  <<fam, pick, take,
    [i \in 1..NFiles |-> IF i \in Reached THEN <<Changes(refs[i], 1)>> ELSE <<>>],
    lost = 0, \E i \in 1..NFiles : \E k \in DOMAIN refs[i] : refs[i][k].bad,
    {<<n[1], n[2], PK!Printed(n[3]), PK!Printed(n[4]), Times(FileAt(n[1], n[2]), n[3])>> : n \in notes}>>))
=============================================================================
