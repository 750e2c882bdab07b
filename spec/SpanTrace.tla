------------------------------- MODULE SpanTrace -------------------------------
(***************************************************************************)
(* Trace specification for the numbering of syntax trees.  A trace is the  *)
(* recorded history of one source file of the implementation: its tree     *)
(* after opening it and after every edit, each node with its span number   *)
(* and the upper bound of its subtree.  Every recorded state must satisfy  *)
(* the numbering invariants, and every step must be an allowed edit step   *)
(* (nodes outside the edited range keep their numbers if there is room).   *)
(* Numbers have up to 48 bits and are recorded as two limbs of 24 bits.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VERIF_TRACES)
Limb == 16777216

VARIABLES h, s
vars == <<h, s>>

Init == h \in 1..Len(Traces) /\ s = 0
Next == s < Len(Traces[h].shots) /\ s' = s + 1 /\ h' = h
Spec == Init /\ [][Next]_vars

Shot(i) == Traces[h].shots[i]
\* Columns of a recorded node
Par(x) == x[1]  Cls(x) == x[2]  Len_(x) == x[3]  Desc(x) == x[4]  Err(x) == x[5]
Num(x) == <<x[6], x[7]>>  Upper(x) == <<x[8], x[9]>>
Own(x) == x[10]  Inner(x) == x[11]  IsMarkup(x) == x[12]

Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Le(a, b) == a = b \/ Lt(a, b)
Succ(a) == IF a[2] = Limb - 1 THEN <<a[1] + 1, 0>> ELSE <<a[1], a[2] + 1>>
\* b - a, but at most `cap`
Gap(a, b, cap) == IF ~Lt(a, b) THEN 0
                  ELSE IF b[1] - a[1] > 1 THEN cap
                  ELSE LET d == (b[1] - a[1]) * Limb + b[2] - a[2] IN IF d > cap THEN cap ELSE d

RECURSIVE SumOver(_, _, _)
SumOver(ns, c, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE j \in S : TRUE IN ns[i][c] + SumOver(ns, c, S \ {i})

---------------------------------------------------------------------------
(* Invariants of a state.                                                  *)
Bad(ns) ==     \* names of what is wrong
  LET D == DOMAIN ns
      N == Len(ns)
      kids == [i \in D |-> {j \in D : Par(ns[j]) = i}]
      after(i) == {j \in D : j > i /\ Par(ns[j]) = Par(ns[i])}
      Own_    == \A i \in D : Own(ns[i]) = 1
      Full    == Le(<<0, 2>>, Num(ns[1])) /\ Le(Upper(ns[1]), <<8388608, 0>>)
      Grow    == \A i \in 2..N : Lt(Num(ns[i - 1]), Num(ns[i]))
      Leaves  == \A i \in D : Inner(ns[i]) = 0 => Upper(ns[i]) = Succ(Num(ns[i]))
      Nested  == \A i \in 2..N : /\ Lt(Num(ns[Par(ns[i])]), Num(ns[i]))
                                 /\ Le(Upper(ns[i]), Upper(ns[Par(ns[i])]))
      Apart   == \A i \in 2..N : \A j \in after(i) : Le(Upper(ns[i]), Num(ns[j]))
      Sizes   == \A i \in D : Inner(ns[i]) = 1 => Len_(ns[i]) = SumOver(ns, 3, kids[i])
      Counts  == \A i \in D : Desc(ns[i]) = 1 + SumOver(ns, 4, kids[i])
      Errors  == \A i \in D : Inner(ns[i]) = 1 => (Err(ns[i]) = 1 <=> \E j \in kids[i] : Err(ns[j]) = 1)
      name(b, t) == IF b THEN {} ELSE {t}
  IN  name(Own_, "a node does not belong to the file") \cup name(Full, "the numbers exceed the full interval")
      \cup name(Grow, "numbers do not grow in document order") \cup name(Leaves, "a leaf's interval is not its number")
      \cup name(Nested, "a node leaves its parent's interval") \cup name(Apart, "intervals of siblings overlap")
      \cup name(Sizes, "recorded sizes are wrong") \cup name(Counts, "recorded descendant counts are wrong")
      \cup name(Errors, "recorded error flags are wrong")

\* Start of each node: all leaves before it.
Starts(ns) == LET RECURSIVE go(_, _, _)
                  go(i, at, acc) == IF i > Len(ns) THEN acc
                                    ELSE go(i + 1, IF Inner(ns[i]) = 1 THEN at ELSE at + Len_(ns[i]), Append(acc, at))
              IN  go(1, 0, <<>>)
Lookup(ns, st) == \A i \in DOMAIN ns : ns[i][13] = -2 \/ (ns[i][13] = st[i] /\ ns[i][14] = st[i] + Len_(ns[i]))

---------------------------------------------------------------------------
(* Steps: nodes outside the edited range keep their numbers.               *)
\* The node whose children an edit of range a..b replaces: the innermost one
\* around it (markup may be replaced entirely, other nodes not).
RECURSIVE Around(_, _, _, _, _)
Around(ns, st, a, b, i) ==
  LET c == {j \in DOMAIN ns : Par(ns[j]) = i /\ Inner(ns[j]) = 1 /\ st[j] <= a /\ b <= st[j] + Len_(ns[j])
                              /\ (IsMarkup(ns[j]) = 1 \/ Len_(ns[j]) > b - a)}
  IN  IF c = {} THEN i ELSE Around(ns, st, a, b, CHOOSE j \in c : \A k \in c : j <= k)
\* Roots of the subtrees below i, in order
KidSeq(ns, i) == LET RECURSIVE go(_, _)
                     go(j, acc) == IF j > Len(ns) \/ (Par(ns[j]) < i) THEN acc
                                   ELSE go(j + Desc(ns[j]), IF Par(ns[j]) = i THEN Append(acc, j) ELSE acc)
                 IN  go(i + 1, <<>>)
RECURSIVE Common(_, _, _, _, _), CommonEnd(_, _, _, _, _, _)
Common(o, n, ok, nk, k) == IF k < Len(ok) /\ k < Len(nk) /\ Cls(o[ok[k + 1]]) = Cls(n[nk[k + 1]])
                           THEN Common(o, n, ok, nk, k + 1) ELSE k
CommonEnd(o, n, ok, nk, p, k) ==
  IF k < Len(ok) - p /\ k < Len(nk) - p /\ Cls(o[ok[Len(ok) - k]]) = Cls(n[nk[Len(nk) - k]])
  THEN CommonEnd(o, n, ok, nk, p, k + 1) ELSE k

\* o, n: old and new nodes; x: the step
Kept(o, n, x) ==
  LET delta == x.k - (x.j - x.i)
      st == Starts(n) so == Starts(o)
      P  == Around(n, st, x.a, x.b, 1)
  IN
  IF x.a = 0 /\ x.b = x.len THEN TRUE                  \* everything was read again
  ELSE
  LET nk == KidSeq(n, P) ok == KidSeq(o, P)
      p  == Common(o, n, ok, nk, 0)
      q  == CommonEnd(o, n, ok, nk, p, 0)
      new == {nk[i] : i \in (p + 1)..(Len(nk) - q)}
      need == 2 * SumOver(n, 4, new)
      lo == IF p = 0 THEN Succ(Num(o[P])) ELSE Upper(o[ok[p]])
      hi == IF q = 0 THEN Upper(o[P]) ELSE Num(o[ok[Len(ok) - q + 1]])
      out(ns, s0, b) == SelectSeq([i \in DOMAIN ns |-> <<s0[i], s0[i] + Len_(ns[i]), Num(ns[i]), Inner(ns[i])>>],
                                  LAMBDA y : y[2] > y[1] /\ (y[2] <= x.a \/ y[1] >= b))
      same(u, v) == Len(u) = Len(v) /\ \A i \in DOMAIN u : u[i][3] = v[i][3]
  IN  \/ need > 0 /\ Gap(lo, hi, 1000000) < need
      \/ /\ same(out(o, so, x.b - delta), out(n, st, x.b))
         \* the ancestors of the replaced nodes, too
         /\ LET RECURSIVE up(_)
                up(i) == i = 0 \/ (Num(o[i]) = Num(n[i]) /\ Upper(o[i]) = Upper(n[i]) /\ up(Par(n[i])))
            IN up(P)

Wrong ==
  IF s = 0 THEN {}
  ELSE LET x == Shot(s)
           b == Bad(x.nodes)
           l == IF Lookup(x.nodes, Starts(x.nodes)) THEN {} ELSE {"looking a span up does not yield its node's range"}
           k == IF s = 1 \/ b # {} \/ Kept(Shot(s - 1).nodes, x.nodes, x) THEN {}
                ELSE {"nodes outside the edited range were renumbered although there was room"}
       IN  b \cup l \cup k
Judge == Wrong = {} \/ PrintT(ToJson(<<h, s, Wrong>>))
=============================================================================
