--------------------------------- MODULE Scan ---------------------------------
(***************************************************************************)
(* A scanner over a text.  It sees the text as characters: its cursor      *)
(* always stands between two of them, and every operation consumes or      *)
(* looks at whole ones.  Places given to it from outside are byte          *)
(* positions, and are moved to the bounds of the text and to a boundary of *)
(* characters beside them if they are none.                                *)
(*                                                                         *)
(* A behaviour starts at some place of a text and performs operations: in  *)
(* some families any, in others those of a plan.                           *)
(***************************************************************************)
EXTENDS Chars, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.VERIF_CFG)
Fam == Cfg.fams

VARIABLES fam, T, i, saved, n, plan, hist
vars == <<fam, T, i, saved, n, plan, hist>>

\* ---- places ---------------------------------------------------------------
At_(X, p) == Utf8Len(SubSeq(X, 1, p))                      \* byte position
Size(X) == Utf8Len(X)
Boundaries(X) == {At_(X, p) : p \in 0..Len(X)}
\* The characters before byte position b, which is moved down (or up).
Down(X, b) == CHOOSE p \in 0..Len(X) : At_(X, p) <= b /\ (p = Len(X) \/ At_(X, p + 1) > b)
Up(X, b)   == IF b >= Size(X) THEN Len(X)
              ELSE CHOOSE p \in 0..Len(X) : At_(X, p) >= b /\ (p = 0 \/ At_(X, p - 1) < b)
Lower(a, b) == IF a < b THEN a ELSE b
Upper(a, b) == IF a > b THEN a ELSE b

\* ---- operations -----------------------------------------------------------
\* Each yields the new place and what is returned: a truth value, a number, a
\* text, a character as a text of one, or none as <<-1>>.  s is a pattern, S a
\* set of characters, x and y are numbers.
None == <<-1>>
Bool_(b) == [i |-> i, v |-> b, t |-> "b"]
Txt(p, q, to) == [i |-> to, v |-> SubSeq(T, p + 1, q), t |-> "s"]
Char(p, to) == [i |-> to, v |-> IF p >= 0 /\ p < Len(T) THEN <<T[p + 1]>> ELSE None, t |-> "c"]
Num(x) == [i |-> i, v |-> x, t |-> "n"]
In(S, p) == p < Len(T) /\ \E k \in DOMAIN S : S[k] = T[p + 1]
RECURSIVE Repeat(_, _)
Repeat(p, s) == IF HasPrefix(T, p, s) THEN Repeat(p + Len(s), s) ELSE p
WhileIn(S) == CHOOSE q \in i..Len(T) : (q = Len(T) \/ ~In(S, q)) /\ \A k \in i..(q - 1) : In(S, k)
UntilIn(S) == CHOOSE q \in i..Len(T) : (q = Len(T) \/ In(S, q)) /\ \A k \in i..(q - 1) : ~In(S, k)
UntilAt(s) == CHOOSE q \in i..Len(T) : (q = Len(T) \/ HasPrefix(T, q, s)) /\ \A k \in i..(q - 1) : ~HasPrefix(T, k, s)
\* `snap` is how a place between the bytes of a character is moved.
Result(o, snap(_)) ==
  CASE o.op = "peek"   -> Char(i, i)
    [] o.op = "eat"    -> Char(i, Lower(i + 1, Len(T)))
    [] o.op = "uneat"  -> Char(i - 1, Upper(i - 1, 0))
    [] o.op = "done"   -> Bool_(i = Len(T))
    [] o.op = "before" -> Txt(0, i, i)
    [] o.op = "after"  -> Txt(i, Len(T), i)
    [] o.op = "scout"  -> Char(i + o.x, i)
    [] o.op = "locate" -> Num(At_(T, Upper(0, Lower(Len(T), i + o.x))))
    [] o.op = "at"     -> Bool_(HasPrefix(T, i, o.s))
    [] o.op = "atIn"   -> Bool_(In(o.s, i))
    [] o.op \in {"eatIf", "expect"} -> [Bool_(HasPrefix(T, i, o.s)) EXCEPT !.i = IF HasPrefix(T, i, o.s) THEN i + Len(o.s) ELSE i]
    [] o.op = "eatIfIn"   -> [Bool_(In(o.s, i)) EXCEPT !.i = IF In(o.s, i) THEN i + 1 ELSE i]
    [] o.op = "eatWhile"  -> Txt(i, Repeat(i, o.s), Repeat(i, o.s))
    [] o.op = "eatUntil"  -> Txt(i, UntilAt(o.s), UntilAt(o.s))
    [] o.op = "eatWhileIn" -> Txt(i, WhileIn(o.s), WhileIn(o.s))
    [] o.op = "eatUntilIn" -> Txt(i, UntilIn(o.s), UntilIn(o.s))
    [] o.op = "from"   -> Txt(Lower(snap(o.x), i), i, i)
    [] o.op = "to"     -> Txt(i, Upper(snap(o.x), i), i)
    [] o.op = "get"    -> Txt(snap(o.x), Upper(snap(o.x), snap(o.y)), i)
    [] o.op = "jump"   -> [Num(At_(T, snap(o.x))) EXCEPT !.i = snap(o.x)]
    [] o.op = "save"   -> Bool_(TRUE)
    [] o.op = "back"   -> [Num(At_(T, saved)) EXCEPT !.i = saved]
Floor(b) == Down(T, b)
Ceil(b)  == Up(T, b)

\* ---- behaviours -----------------------------------------------------------
Init == /\ fam \in DOMAIN Fam /\ T = <<>> /\ i = 0 /\ saved = 0 /\ n = -1 /\ plan = 0 /\ hist = <<>>
Open == /\ n = -1
        /\ \E k \in DOMAIN Fam[fam].texts : T' = Fam[fam].texts[k]
        /\ IF Fam[fam].plans = <<>> THEN plan' = 0 /\ i' \in 0..Len(T')
           ELSE plan' \in DOMAIN Fam[fam].plans /\ i' = 0
        /\ n' = 0 /\ saved' = i' /\ hist' = <<<<At_(T', i')>>>> /\ UNCHANGED fam
Perform(o) == LET r == Result(o, Floor)  r2 == Result(o, Ceil) IN
  \E z \in {r, r2} :
  /\ i' = z.i
  /\ saved' = IF o.op = "save" THEN i ELSE saved
  /\ hist' = Append(hist, <<o, r.t, {r.v, r2.v}, {At_(T, r.i), At_(T, r2.i)}, At_(T, z.i)>>)
  /\ n' = n + 1 /\ UNCHANGED <<fam, T, plan>>
Step == n >= 0 /\
  IF plan = 0 THEN n < Fam[fam].steps /\ \E k \in DOMAIN Fam[fam].ops : Perform(Fam[fam].ops[k])
  ELSE n < Len(Fam[fam].plans[plan]) /\ Perform(Fam[fam].plans[plan][n + 1])
Next == Open \/ Step
Spec == Init /\ [][Next]_vars
\* What a place between bytes is moved to only matters to the next operation.
Last == IF n < 1 THEN <<>> ELSE hist[Len(hist)]
View == IF plan = 0 THEN <<fam, T, hist>> ELSE <<fam, T, plan, n, i, saved>>

\* ---- properties of the specification --------------------------------------
InText == n >= 0 => i \in 0..Len(T) /\ saved \in 0..Len(T)
\* What is consumed is the text between the old place and the new one, and
\* taking back what was eaten restores the place.
Before_ == IF Len(hist) = 2 THEN hist[1][1] ELSE IF Len(hist) < 2 THEN -1 ELSE hist[Len(hist) - 1][5]
Consumes == n >= 1 /\ Last[1].op \in {"eat", "eatWhile", "eatUntil", "eatWhileIn", "eatUntilIn"} =>
  LET v == CHOOSE w \in Last[3] : TRUE  b == Down(T, Before_) IN
  /\ b <= i
  /\ IF v = None THEN b = i ELSE v = SubSeq(T, b + 1, i)
Still == n >= 1 /\ Last[1].op \in {"peek", "done", "before", "after", "scout", "locate", "at", "atIn", "from", "to", "get", "save"} =>
  At_(T, i) = Before_
Finished == n >= 0 /\ IF plan = 0 THEN n = Fam[fam].steps ELSE n = Len(Fam[fam].plans[plan])
Emit == ~Finished \/ PrintT(ToJson(<<T, hist>>))
===============================================================================
