-------------------------------- MODULE Typed --------------------------------
(***************************************************************************)
(* The documents of Syntax seen through the typed view of Ast.             *)
(***************************************************************************)
EXTENDS Syntax, Ast

Visible == n >= 0
\* The nodes a part refers to.
RECURSIVE RefsOf(_)
RefsOf(v) == CASE v[1] = "n"  -> {v[2]}
               [] v[1] = "v"  -> {v[3]}
               [] v[1] = "ns" -> {v[2][x] : x \in DOMAIN v[2]}
               [] v[1] = "vs" -> {v[2][x][2] : x \in DOMAIN v[2]}
               [] v[1] = "is" -> UNION {{v[2][x][1], v[2][x][2], v[2][x][3]} : x \in DOMAIN v[2]}
               [] OTHER -> {}
\* Parts lie inside the construct, and a construct without errors has them all.
PartsInside == Visible => LET M == Flatten(tree) IN
  \A i \in 1..Len(M) : LET s == Said(Text, M, i) IN
    \A x \in DOMAIN s : \A j \in RefsOf(s[x][2]) : j > i /\ j <= Last(M, i)
NoErrorComplete == Visible /\ ~tree.r => LET M == Flatten(tree) IN \A i \in 1..Len(M) : Complete(M, i)
\* Every expression of an error-free text is a part of something (but for
\* primes detached from other primes).
Reached == Visible /\ ~tree.r => LET M == Flatten(tree) IN
  \A i \in 2..Len(M) : M[i].k \in ExprKind \ {"Parbreak", "Linebreak", "MathPrimes"} =>
    LET s == Said(Text, M, M[i].par) IN s = <<>> \/ \E x \in DOMAIN s : i \in RefsOf(s[x][2])

EmitParts == ~Visible \/ LET M == Flatten(tree) IN
  PrintT(ToJson(<<Text, Mode, [i \in 1..Len(M) |-> <<M[i].k, M[i].p, M[i].e, M[i].par>>],
                  [i \in 1..Len(M) |-> Said(Text, M, i)], [i \in 1..Len(M) |-> [q \in Place |-> Variant(q, M[i].k)]]>>))
=============================================================================
