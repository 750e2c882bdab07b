------------------------------- MODULE Project -------------------------------
(***************************************************************************)
(* A project and the packages installed beside it.                         *)
(*                                                                         *)
(* The configuration lists families: source files (of the project: lib 0,  *)
(* or of an installed package) with the texts each may have, other files,  *)
(* the installed packages, and the main file.  The first steps of every    *)
(* behaviour pick a text for each source file.                             *)
(***************************************************************************)
EXTENDS Imports, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.VERIF_CFG)
Fam == Cfg.fams
F(f) == Fam[f]

\* pick[i]: which text source file i has; refs[i]: what it refers to.
VARIABLES fam, pick, refs
NFiles == Len(F(fam).files)
Src(i) == F(fam).files[i]
TextAt(i) == Src(i).docs[pick[i]]
\* The source file at a place, 0 if none; whether another file is there.
FileAt(lib, path) == LET S == {i \in 1..NFiles : Src(i).lib = lib /\ Src(i).path = path} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
AssetAt(lib, path) == \E i \in DOMAIN F(fam).assets : F(fam).assets[i].lib = lib /\ F(fam).assets[i].path = path
IsFile(lib, path) == FileAt(lib, path) # 0 \/ AssetAt(lib, path)

\* ---- packages ------------------------------------------------------------
Libs == F(fam).libs
Pinned(x) == x.ok
Installed(x) == {l \in DOMAIN Libs : Libs[l].ns = x.ns /\ Libs[l].name = x.name}
LibOf(x) == LET S == {l \in Installed(x) : Libs[l].v = x.v} IN IF S = {} THEN 0 ELSE CHOOSE l \in S : TRUE
\* The latest installed version, unless the one at hand is at least as new.
Latest(x) ==
  LET S == {l \in Installed(x) : PK!Order(Libs[l].v, x.v) > 0} IN
  IF S = {} THEN x
  ELSE [x EXCEPT !.v = Libs[CHOOSE l \in S : \A m \in S : PK!Order(Libs[l].v, Libs[m].v) >= 0].v]
Usable(l) == l # 0 /\ Libs[l].manifest
Entry(l) == PO!Rooted(Libs[l].entry)

\* Where a reference of a file leads.
Target(i, s) == PO!Join(Src(i).path, s)

Choosing == Len(pick) < NFiles
Choose == /\ Choosing
          /\ \E d \in DOMAIN F(fam).files[Len(pick) + 1].docs : pick' = Append(pick, d)
          /\ UNCHANGED <<fam, refs>>
=============================================================================
