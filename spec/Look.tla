-------------------------------- MODULE Look ---------------------------------
(***************************************************************************)
(* Looking around in the documents of Syntax: a cursor on a node moves by  *)
(* the accessors.  What the accessors reach is stated in Views; here the   *)
(* states are the documents, and the properties relate the accessors.      *)
(***************************************************************************)
EXTENDS Syntax, Views

\* Going back and forth between siblings and leaves returns.
RoundTrip(M) ==
  \A i \in 1..Len(M) :
    /\ LET s == NextSibling(M, i) IN s # 0 /\ ~Quiet(M, i) => PrevSibling(M, s) = i
    /\ LET s == PrevSibling(M, i) IN s # 0 /\ ~Quiet(M, i) => NextSibling(M, s) = i
    /\ LET s == NextLeaf(M, i) IN s # 0 => s > i /\ (PrevLeaf(M, s) = 0 \/ PrevLeaf(M, s) <= Last(M, i))
    /\ IsLeaf(M, i) => Leftmost(M, i) = i /\ Rightmost(M, i) = i
\* Every position but the ends has exactly one leaf on either side, and the
\* leaves cover the text in order.
Covered(M, L) ==
  /\ \A c \in 1..L : LeafBefore(M, 1, c) # 0 /\ LeafAfter(M, 1, c - 1) = LeafBefore(M, 1, c)
  /\ LeafAfter(M, 1, L) = 0
\* Categories close in the order opposite to which they open, and the text in
\* between is the document.
RECURSIVE Balanced(_, _, _, _, _)
Balanced(E, i, st, pos, L) ==
  IF i > Len(E) THEN st = <<>> /\ pos = L
  ELSE CASE E[i][1] = "open"  -> Balanced(E, i + 1, Append(st, E[i][2]), pos, L)
         [] E[i][1] = "close" -> st # <<>> /\ st[Len(st)] = E[i][2] /\ Balanced(E, i + 1, SubSeq(st, 1, Len(st) - 1), pos, L)
         [] OTHER             -> E[i][2] = pos /\ Balanced(E, i + 1, st, E[i][3], L)

Visible == n >= 0
NavSound == Visible => LET M == Flatten(tree) IN RoundTrip(M) /\ Covered(M, Len(Text))
HtmlSound == Visible => LET M == Flatten(tree) IN Balanced(Events(M, 1), 1, <<>>, 0, Len(Text))

EmitNav == ~Visible \/ LET
    M == Flatten(tree)  L == Len(Text)
    row(i) == <<PrevSibling(M, i), NextSibling(M, i), PrevLeaf(M, i), NextLeaf(M, i), Leftmost(M, i), Rightmost(M, i),
                [c \in 1..(M[i].e - M[i].p + 1) |-> IF c = 1 THEN AtStart(M, i) ELSE LeafBefore(M, i, M[i].p + c - 1)],
                [c \in 1..(M[i].e - M[i].p) |-> LeafAfter(M, i, M[i].p + c - 1)]>>
  IN PrintT(ToJson(<<Text, Mode, [i \in 1..Len(M) |-> <<M[i].k, M[i].p, M[i].e, M[i].par>>], [i \in 1..Len(M) |-> row(i)]>>))
EmitTags == ~Visible \/ LET M == Flatten(tree) IN
  PrintT(ToJson(<<Text, Mode, [i \in 1..Len(M) |-> <<M[i].k, M[i].p, M[i].e, M[i].par>>],
                  [i \in 1..Len(M) |-> TagOf(M, i)], Events(M, 1)>>))
=============================================================================
