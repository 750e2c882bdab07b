--------------------------------- MODULE Dump ---------------------------------
(***************************************************************************)
(* A session of the command that prints syntax trees.  It is given paths;  *)
(* for each in turn, what is there is read and its tree is printed, a line *)
(* for every node in document order, as deep as the node lies.  A path     *)
(* with nothing to read ends the session with a failure.                   *)
(***************************************************************************)
EXTENDS Parser, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.VERIF_CFG)
Sessions == Cfg.sessions         \* each: files (text), args (numbers of files, 0 for none)

VARIABLES s, i, out, failed
vars == <<s, i, out, failed>>

RECURSIVE Rows(_, _, _, _), RowsOf(_, _, _, _, _)
\* The lines of node x, which begins after p characters of T and lies d deep.
Rows(T, x, p, d) ==
  <<[d |-> d, t |-> x.t, k |-> KindName(x.k), x |-> IF x.t = "I" THEN <<>> ELSE SubSeq(T, p + 1, p + x.l), m |-> x.m]>>
  \o RowsOf(T, x.c, 1, p, d + 1)
RowsOf(T, c, j, p, d) ==
  IF j > Len(c) THEN <<>> ELSE Rows(T, c[j], p, d) \o RowsOf(T, c, j + 1, p + c[j].l, d)

Given == Sessions[s].args
File(j) == Sessions[s].files[Given[j]]
Init == s \in DOMAIN Sessions /\ i = 0 /\ out = <<>> /\ failed = FALSE
Print_ == /\ i < Len(Given) /\ ~failed /\ Given[i + 1] # 0
          /\ out' = Append(out, Rows(File(i + 1), ParseMarkup(File(i + 1)), 0, 0))
          /\ i' = i + 1 /\ UNCHANGED <<s, failed>>
Fail == /\ i < Len(Given) /\ ~failed /\ Given[i + 1] = 0
        /\ failed' = TRUE /\ UNCHANGED <<s, i, out>>
Spec == Init /\ [][Print_ \/ Fail]_vars
View == <<s, i, failed>>
Ended == failed \/ i = Len(Given)

\* ---- properties of the specification --------------------------------------
RECURSIVE Texts(_)
Texts(r) == IF r = <<>> THEN <<>> ELSE Head(r).x \o Texts(Tail(r))
\* The texts on the lines of a file are the file.
Whole == \A j \in DOMAIN out : Texts(out[j]) = File(j)
\* Only inner nodes have deeper lines below, and depth grows by one at a time.
Shape == \A j \in DOMAIN out : \A n \in DOMAIN out[j] :
           /\ (n = 1) = (out[j][n].d = 0)
           /\ n > 1 => out[j][n].d <= out[j][n - 1].d + 1
           /\ n > 1 /\ out[j][n].d > out[j][n - 1].d => out[j][n - 1].t = "I"
Emit == ~Ended \/ PrintT(ToJson(<<s, failed, out>>))
===============================================================================
