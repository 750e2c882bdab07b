------------------------------ MODULE Interner -------------------------------
(***************************************************************************)
(* Identities of files, used by one program step by step.  An identity is  *)
(* the number of the entry created for it; an entry is found by its        *)
(* package and path unless it was created as a unique one.  There is room  *)
(* for F.cap entries; when it is used up, what exists is still found, and  *)
(* nothing new can be had (the answer is 0).                               *)
(***************************************************************************)
EXTENDS PathOps, TLC, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.VERIF_CFG)
Fam == Cfg.fams

VARIABLES fam, entries, hist, over
vars == <<fam, entries, hist, over>>
F == Fam[fam]

Init == /\ fam \in DOMAIN Fam /\ entries = <<>> /\ hist = <<>> /\ over = FALSE

Find(k, p) == {i \in DOMAIN entries : ~entries[i].fake /\ entries[i].pkg = k /\ entries[i].path = p}
\* The identity for a package and path: the existing one or a new one.
Get(k, p, what) ==
  LET S == Find(k, p) IN
  IF S # {} THEN /\ hist' = Append(hist, Append(what, CHOOSE i \in S : TRUE)) /\ UNCHANGED entries
  ELSE IF Len(entries) = F.cap THEN /\ hist' = Append(hist, Append(what, 0)) /\ UNCHANGED entries
  ELSE /\ entries' = Append(entries, [pkg |-> k, path |-> p, fake |-> FALSE])
       /\ hist' = Append(hist, Append(what, Len(entries) + 1))
New  == \E k \in DOMAIN F.pkgs, i \in DOMAIN F.paths : Get(k, Rooted(F.paths[i]), <<"new", k, F.paths[i]>>)
Fake == \E i \in DOMAIN F.paths :
          IF Len(entries) = F.cap THEN /\ hist' = Append(hist, <<"fake", 1, F.paths[i], 0>>) /\ UNCHANGED entries
          ELSE
          /\ entries' = Append(entries, [pkg |-> 1, path |-> Rooted(F.paths[i]), fake |-> TRUE])
          /\ hist' = Append(hist, <<"fake", 1, F.paths[i], Len(entries) + 1>>)
JoinFile == \E e \in DOMAIN entries, i \in DOMAIN F.joins :
          Get(entries[e].pkg, Join(entries[e].path, F.joins[i]), <<"join", e, F.joins[i]>>)
Ext  == \E e \in DOMAIN entries, i \in DOMAIN F.exts :
          (F.exts[i] # <<>> \/ HasStem(entries[e].path)) /\
          Get(entries[e].pkg, WithExt(entries[e].path, F.exts[i]), <<"ext", e, F.exts[i]>>)
Stop == Len(hist) = F.steps /\ ~over /\ over' = TRUE /\ UNCHANGED <<fam, entries, hist>>
Next == Stop \/ (Len(hist) < F.steps /\ (New \/ Fake \/ JoinFile \/ Ext) /\ UNCHANGED <<fam, over>>)
Spec == Init /\ [][Next]_vars

\* Different identities differ in package or path, unless one is unique.
Injective == \A i, j \in DOMAIN entries :
               i # j /\ ~entries[i].fake /\ ~entries[j].fake =>
               entries[i].pkg # entries[j].pkg \/ entries[i].path # entries[j].path
\* Entries are never changed or dropped.
Stable == [][\A i \in DOMAIN entries : i \in DOMAIN entries' /\ entries'[i] = entries[i]]_vars
\* Package 1 is "no package".
Emit == ~over \/
  PrintT(ToJson(<<F.pkgs, hist, [i \in DOMAIN entries |-> <<entries[i].pkg, Show(entries[i].path)>>]>>))
=============================================================================
