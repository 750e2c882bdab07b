-------------------------------- MODULE Paths --------------------------------
(***************************************************************************)
(* Virtual paths.  A path is a sequence of components below the root.  A   *)
(* path starts from some text and moves by resolving texts relative to it  *)
(* or by getting another extension.  Texts are sequences of characters.    *)
(***************************************************************************)
EXTENDS PathOps, TLC, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.VERIF_CFG)
Fam == Cfg.fams
\* ---- histories -----------------------------------------------------------
VARIABLES fam, path, ops, at      \* at: the path after every operation
vars == <<fam, path, ops, at>>

Init == \E f \in DOMAIN Fam : fam = f /\ \E i \in DOMAIN Fam[f].inits :
          LET s == Fam[f].inits[i] IN
          /\ path = Rooted(s) /\ ops = <<<<"new", s>>>> /\ at = <<Show(Rooted(s))>>
Do(o, s, p) == /\ path' = p /\ ops' = Append(ops, <<o, s>>) /\ at' = Append(at, Show(p)) /\ UNCHANGED fam
Next == /\ Len(ops) <= Fam[fam].steps
        /\ \/ \E i \in DOMAIN Fam[fam].joins : LET s == Fam[fam].joins[i] IN Do("join", s, Join(path, s))
           \/ \E i \in DOMAIN Fam[fam].exts : LET e == Fam[fam].exts[i] IN (e # <<>> \/ HasStem(path)) /\ Do("ext", e, WithExt(path, e))
Spec == Init /\ [][Next]_vars

\* Nothing empty, no dots, parents only where they cannot be resolved.
Normal == \A i \in DOMAIN path :
            /\ path[i] \notin {<<>>, <<Dot>>}
            /\ path[i] = Up => \A j \in 1..i : path[j] = Up
\* Reading what is printed gives the path back.
Canonical == Rooted(Show(path)) = path
\* A path relative to another never depends on that file's own name, and an
\* absolute one not on the file at all.
Relative == \A i \in DOMAIN Fam[fam].joins : LET s == Fam[fam].joins[i] IN
              /\ Absolute(s) => Join(path, s) = Join(<<>>, s)
              /\ ~Absolute(s) /\ path # <<>> => Join(path, s) = Join([path EXCEPT ![Len(path)] = <<120>>], s)
Emit == PrintT(ToJson(<<ops, at>>))
=============================================================================
