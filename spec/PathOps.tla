------------------------------- MODULE PathOps -------------------------------
(***************************************************************************)
(* Virtual paths: sequences of components below the root.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences

Slash == 47
Dot == 46

RECURSIVE Split(_, _)
Split(s, cur) == IF s = <<>> THEN <<cur>>
                 ELSE IF Head(s) = Slash THEN <<cur>> \o Split(Tail(s), <<>>)
                 ELSE Split(Tail(s), Append(cur, Head(s)))
Up == <<Dot, Dot>>
\* Going down a component: up one if it can be resolved.
Step(p, c) == IF c \in {<<>>, <<Dot>>} THEN p
              ELSE IF c = Up /\ p # <<>> /\ p[Len(p)] # Up THEN SubSeq(p, 1, Len(p) - 1)
              ELSE Append(p, c)
RECURSIVE Descend(_, _)
Descend(p, cs) == IF cs = <<>> THEN p ELSE Descend(Step(p, Head(cs)), Tail(cs))
Rooted(s) == Descend(<<>>, Split(s, <<>>))
Absolute(s) == s # <<>> /\ Head(s) = Slash
Join(p, s) == IF Absolute(s) THEN Rooted(s)
              ELSE Descend(IF p = <<>> THEN p ELSE SubSeq(p, 1, Len(p) - 1), Split(s, <<>>))

\* Length of the name without its last extension; a dot in front is not one.
Stem(c) == LET D == {i \in 2..Len(c) : c[i] = Dot} IN
           IF D = {} \/ (c[1] = Dot /\ D = {}) THEN Len(c) ELSE (CHOOSE i \in D : \A j \in D : j <= i) - 1
\* e: the extension without its dot; empty to remove it.
WithExt(p, e) ==
  IF p = <<>> \/ p[Len(p)] = Up THEN p
  ELSE LET c == p[Len(p)]
           x == IF e = <<>> \/ Head(e) = Dot THEN e ELSE <<Dot>> \o e
       IN  [p EXCEPT ![Len(p)] = SubSeq(c, 1, Stem(c)) \o x]
RECURSIVE Text(_)
Text(p) == IF p = <<>> THEN <<>> ELSE <<Slash>> \o Head(p) \o Text(Tail(p))
Show(p) == IF p = <<>> THEN <<Slash>> ELSE Text(p)
\* Names of nothing but dots have no extension to speak of.
HasStem(p) == p # <<>> /\ \E i \in 1..Stem(p[Len(p)]) : p[Len(p)][i] # Dot
=============================================================================
