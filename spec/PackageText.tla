----------------------------- MODULE PackageText -----------------------------
(***************************************************************************)
(* Package specifications, versions and version bounds as texts, and the   *)
(* comparison of versions with bounds.  Numbers are sequences of digits    *)
(* (they reach 2^32 - 1).                                                  *)
(***************************************************************************)
EXTENDS Chars, Integers, Sequences

\* ---- numbers --------------------------------------------------------------
Digit(c) == c >= 48 /\ c <= 57
RECURSIVE Strip(_)
Strip(d) == IF Len(d) > 1 /\ Head(d) = 48 THEN Strip(Tail(d)) ELSE d
RECURSIVE LexLess(_, _)
LexLess(a, b) == b # <<>> /\ (a = <<>> \/ Head(a) < Head(b) \/ (Head(a) = Head(b) /\ LexLess(Tail(a), Tail(b))))
\* (of numbers without leading zeros)
Less(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLess(a, b))
Largest == <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>    \* 4294967295
IsNumber(s) == s # <<>> /\ (\A i \in DOMAIN s : Digit(s[i])) /\ ~Less(Largest, Strip(s))

\* ---- texts ----------------------------------------------------------------
RECURSIVE Split(_, _, _)
Split(s, sep, cur) == IF s = <<>> THEN <<cur>>
                      ELSE IF Head(s) = sep THEN <<cur>> \o Split(Tail(s), sep, <<>>)
                      ELSE Split(Tail(s), sep, Append(cur, Head(s)))
Bad == [ok |-> FALSE, ns |-> <<>>, name |-> <<>>, v |-> <<>>]
\* Version and bound: numbers without leading zeros.
Numbers(parts) == [i \in DOMAIN parts |-> Strip(parts[i])]
VersionOf(s, least) ==
  LET p == Split(s, 46, <<>>) IN
  IF Len(p) >= least /\ Len(p) <= 3 /\ \A i \in DOMAIN p : IsNumber(p[i])
  THEN [Bad EXCEPT !.ok = TRUE, !.v = Numbers(p)] ELSE Bad
Name(s) == s # <<>> /\ IdStart(s[1]) /\ \A i \in 2..Len(s) : IdContinue(s[i])
First(s, c) == LET S == {i \in DOMAIN s : s[i] = c} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
\* @namespace/name, without a version and with one.
BareOf(s) ==
  LET a == First(s, 47) IN
  IF s = <<>> \/ Head(s) # 64 \/ a = 0 THEN Bad
  ELSE LET ns == SubSeq(s, 2, a - 1)  nm == SubSeq(s, a + 1, Len(s)) IN
       IF Name(ns) /\ Name(nm) THEN [Bad EXCEPT !.ok = TRUE, !.ns = ns, !.name = nm] ELSE Bad
SpecOf(s) ==
  LET b == First(s, 58) IN
  IF b = 0 THEN Bad
  ELSE LET x == BareOf(SubSeq(s, 1, b - 1))  v == VersionOf(SubSeq(s, b + 1, Len(s)), 3) IN
       IF x.ok /\ v.ok THEN [x EXCEPT !.v = v.v] ELSE Bad

RECURSIVE Dotted(_)
Dotted(v) == IF v = <<>> THEN <<>> ELSE IF Len(v) = 1 THEN v[1] ELSE v[1] \o <<46>> \o Dotted(Tail(v))
Printed(x) == (IF x.ns = <<>> THEN <<>> ELSE <<64>> \o x.ns \o <<47>> \o x.name)
              \o (IF x.ns # <<>> /\ x.v # <<>> THEN <<58>> ELSE <<>>) \o Dotted(x.v)
Read(kind, s) == CASE kind = "spec"    -> SpecOf(s)
                   [] kind = "bare"    -> BareOf(s)
                   [] kind = "version" -> VersionOf(s, 3)
                   [] kind = "bound"   -> VersionOf(s, 1)
Kinds == {"spec", "bare", "version", "bound"}

\* ---- comparison -----------------------------------------------------------
RECURSIVE Order(_, _)
\* -1, 0, 1: v compared with the components the bound gives.
Order(v, b) == IF b = <<>> THEN 0
               ELSE IF Less(v[1], b[1]) THEN -1 ELSE IF Less(b[1], v[1]) THEN 1
               ELSE Order(Tail(v), Tail(b))
=============================================================================
