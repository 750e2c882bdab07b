-------------------------------- MODULE Reparse --------------------------------
(***************************************************************************)
(* An open source file under edits.  Its tree is maintained incrementally: *)
(* an edit is absorbed by the innermost construct that can be read again   *)
(* on its own (a block, or a run of markup expressions at the top level or *)
(* in a content block), and only otherwise is the whole file read again.   *)
(*                                                                         *)
(* TLC checks the design: after any history the tree is the one the        *)
(* grammar assigns to the current text, the reported range covers the      *)
(* change, everything outside it is untouched, and an edit which leaves    *)
(* everything outside a block as it was is absorbed by that block.         *)
(* Each history is then replayed into the implementation.                  *)
(***************************************************************************)
EXTENDS Parser, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.VERIF_CFG)
Fam == Cfg.fams
Buckets == 16
F(f) == Fam[f]

VARIABLES fam, seed, text, tree, rng, last, hist, n
vars == <<fam, seed, text, tree, rng, last, hist, n>>

Splice(T, i, j, w) == SubSeq(T, 1, i) \o w \o SubSeq(T, j + 1, Len(T))
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

---------------------------------------------------------------------------
(* Reading a construct again on its own.                                   *)
Fail == [ok |-> FALSE, N |-> <<>>, at |-> FALSE, nest |-> 0]

\* A block that occupies positions a..b-1 of the text.
ReadBlock(T, a, b) ==
  LET p == Block_(NewParser(T, a, Code)) IN
  IF p.bal /\ p.pe = b THEN [ok |-> TRUE, N |-> <<p.N[1]>>, at |-> FALSE, nest |-> 0] ELSE Fail

RECURSIVE ReadOn(_, _, _, _, _)
ReadOn(p, b, at, nest, top) ==
  IF p.k = "End" \/ p.st >= b \/ (~top /\ nest = 0 /\ p.k = "RightBracket")
  THEN [p |-> p, at |-> at, n |-> nest]
  ELSE LET r == MarkupExpr(p, at, nest) IN ReadOn(r.p, b, HadNewline(r.p), r.n, top)
\* Markup expressions that occupy positions a..b-1.
ReadMarkup(T, a, b, at, nest, top) ==
  LET p == NewParser(T, a, Markup)
      r == ReadOn(p, b, at \/ HadNewline(p), nest, top)
  IN  IF r.p.bal /\ r.p.st = b THEN [ok |-> TRUE, N |-> r.p.N, at |-> r.at, nest |-> r.n] ELSE Fail

---------------------------------------------------------------------------
(* What the reader's state is behind a node (which starts at p in T).      *)
HasNewline(T, p, x) == \E i \in (p + 1)..(p + x.l) : Newline(T[i])
RECURSIVE AtStart(_, _, _, _), AtStartSeq(_, _, _, _)
AtStartSeq(T, c, p, at) == IF c = <<>> THEN at
                           ELSE AtStartSeq(T, Tail(c), p + Head(c).l, AtStart(T, Head(c), p, at))
AtStart(T, x, p, at) ==
  IF x.k \in Trivia THEN at \/ x.k = "Parbreak" \/ (x.k = "Space" /\ HasNewline(T, p, x))
  ELSE IF x.l = 0 THEN at
  ELSE IF x.t = "I" THEN AtStartSeq(T, x.c, p, FALSE)
  ELSE FALSE
RECURSIVE NestSeq(_, _, _, _)
NestSeq(T, c, p, nest) ==
  IF c = <<>> THEN nest
  ELSE LET x == Head(c) IN
       NestSeq(T, Tail(c), p + x.l,
               IF x.k # "Text" \/ x.l # 1 THEN nest
               ELSE IF T[p + 1] = 91 THEN nest + 1
               ELSE IF T[p + 1] = 93 /\ nest > 0 THEN nest - 1 ELSE nest)

LinkPunct == {33, 44, 46, 58, 59, 63, 39}      \* ! , . : ; ? '
Sticky(T, p, x) ==          \* must not be the first (or the one behind the last) to be read again
  \/ x.k \in Trivia \/ x.t = "E" \/ x.k = "Semicolon"
  \/ /\ x.t # "I" /\ x.l > 0
     /\ \/ x.l = 1 /\ T[p + 1] = 47
        \/ \A i \in (p + 1)..(p + x.l) : T[i] \in LinkPunct

---------------------------------------------------------------------------
(* The search for the construct to read again.  To/Tn: old and new text;   *)
(* rs..re: replaced range of the old one; k: length of the replacement.    *)
None_ == [ok |-> FALSE, x |-> Leaf("End", 0), a |-> 0, b |-> 0]
Includes(a, b, rs, re) == a < rs /\ b > re
Touches(a, b, rs, re) == (a <= rs /\ rs <= b) \/ (rs <= a /\ a <= re)

Put(x, i, c) == Inner(x.k, SubSeq(x.c, 1, i - 1) \o c \o SubSeq(x.c, i + 1, Len(x.c)))

RECURSIVE Left(_, _, _, _), Right(_, _, _, _)
Left(T, c, pos, s) == IF s > 0 /\ Sticky(T, pos[s + 1], c[s + 1]) THEN Left(T, c, pos, s - 1) ELSE s
Right(T, c, pos, e) == IF e < Len(c) /\ (Sticky(T, pos[e + 1], c[e + 1]) \/ (e > 0 /\ c[e].k = "Hash"))
                       THEN Right(T, c, pos, e + 1) ELSE e
RECURSIVE Starts(_, _)
Starts(c, p) == IF c = <<>> THEN <<>> ELSE <<p>> \o Starts(Tail(c), p + Head(c).l)

RECURSIVE Segment(_, _, _, _, _, _, _, _, _, _, _)
Segment(To, Tn, x, off, o1, o2, rs, re, k, top, exp) ==
  LET c   == x.c
      pos == Starts(c, off)
      s1  == Left(To, c, pos, IF o1 > Max2(exp, 2) THEN o1 - Max2(exp, 2) ELSE 0)
      s   == IF s1 > 0 /\ c[s1].k = "Hash" THEN s1 - 1 ELSE s1
      e   == Right(To, c, pos, Min2(o2 + exp, Len(c)))
      pre == SubSeq(c, 1, s)
      mid == SubSeq(c, s + 1, e)
      a   == off + SumLen(pre)
      b   == a + SumLen(mid) + k - (re - rs)
      at0 == AtStartSeq(To, pre, off, TRUE)
      n0  == NestSeq(To, pre, off, 0)
      r   == ReadMarkup(Tn, a, b, at0, n0, top)
      end == e = Len(c)
  IN  IF /\ r.ok
         /\ end \/ r.at = AtStartSeq(To, mid, a, at0)
         /\ (end /\ top) \/ r.nest = NestSeq(To, mid, a, n0)
      THEN [ok |-> TRUE, x |-> Inner(x.k, pre \o r.N \o SubSeq(c, e + 1, Len(c))), a |-> a, b |-> b]
      ELSE IF s = 0 /\ end THEN None_
      ELSE Segment(To, Tn, x, off, o1, o2, rs, re, k, top, 2 * exp)

RECURSIVE Try(_, _, _, _, _, _, _, _), TryFrom(_, _, _, _, _, _, _, _, _, _, _, _)
Try(To, Tn, x, off, rs, re, k, parent) == TryFrom(To, Tn, x, off, rs, re, k, parent, 1, off, -1, 0)
\* Children before i do not absorb the edit; o1..o2-1 (from 0) of them touch it.
TryFrom(To, Tn, x, off, rs, re, k, parent, i, cur, o1, o2) ==
  LET stop ==
        IF o1 < 0 \/ o1 >= o2 \/ x.k # "Markup" \/ parent \notin {"", "ContentBlock"} THEN None_
        ELSE Segment(To, Tn, x, off, o1, o2, rs, re, k, parent = "", 1)
  IN
  IF i > Len(x.c) THEN stop
  ELSE LET y  == x.c[i]
           e  == cur + y.l
           ne == e + k - (re - rs)
           in == y.t # "L" /\ Includes(cur, e, rs, re)
           r  == IF in THEN Try(To, Tn, y, cur, rs, re, k, x.k) ELSE None_
           bl == IF in /\ ~r.ok /\ y.k \in {"CodeBlock", "ContentBlock"} THEN ReadBlock(Tn, cur, ne) ELSE Fail
           tc == Touches(cur, e, rs, re)
           p1 == IF tc /\ o1 < 0 THEN i - 1 ELSE o1
           p2 == IF tc THEN i ELSE o2
       IN  IF r.ok THEN [r EXCEPT !.x = Put(x, i, <<r.x>>)]
           ELSE IF bl.ok THEN [ok |-> TRUE, x |-> Put(x, i, bl.N), a |-> cur, b |-> ne]
           ELSE IF re < cur
                THEN IF p1 < 0 \/ p1 >= p2 \/ x.k # "Markup" \/ parent \notin {"", "ContentBlock"} THEN None_
                     ELSE Segment(To, Tn, x, off, p1, p2, rs, re, k, parent = "", 1)
           ELSE TryFrom(To, Tn, x, off, rs, re, k, parent, i + 1, e, p1, p2)

\* A quote behind code that failed to parse, before position `end`: an edit
\* behind it may turn what follows into a string, so no neighbourhood will do.
RECURSIVE Leaves(_, _)
Leaves(x, p) == IF x.t # "I" THEN <<[x |-> x, p |-> p]>>
                ELSE LET RECURSIVE go(_, _)
                         go(c, q) == IF c = <<>> THEN <<>> ELSE Leaves(Head(c), q) \o go(Tail(c), q + Head(c).l)
                     IN  go(x.c, p)
OpenQuote(T, x, end) ==
  x.r /\ LET lv == SelectSeq(Leaves(x, 0), LAMBDA y : y.x.k \notin Trivia /\ y.p < end) IN
         \E i \in 2..Len(lv) : /\ lv[i].x.k = "SmartQuote" /\ T[lv[i].p + 1] = 34
                               /\ lv[i - 1].x.t = "E"

Reparse(To, Tn, x, rs, re, k) ==
  LET r == IF OpenQuote(To, x, rs) THEN None_ ELSE Try(To, Tn, x, 0, rs, re, k, "") IN
  IF r.ok THEN r ELSE [ok |-> FALSE, x |-> Parse(Tn, Markup), a |-> 0, b |-> Len(Tn)]

---------------------------------------------------------------------------
NoEdit == [i |-> 0, j |-> 0, w |-> <<>>, from |-> <<>>, was |-> Inner("Markup", <<>>), local |-> TRUE]
Init == /\ fam \in DOMAIN Fam /\ seed \in {<<b>> : b \in 0..(Buckets - 1)}
        /\ text = <<>> /\ tree = Inner("Markup", <<>>) /\ rng = <<0, 0>>
        /\ last = NoEdit /\ hist = <<>> /\ n = -1
Open == /\ n = -1
        /\ \E i \in {j \in DOMAIN F(fam).seeds : j % Buckets = seed[1]} :
             /\ seed' = F(fam).seeds[i].text /\ text' = seed' /\ tree' = Parse(text', Markup)
             /\ n' = IF F(fam).seeds[i].script = <<>> THEN 0 ELSE 1000 * i
             /\ UNCHANGED <<fam, hist, rng, last>>
Do(i, j, w) ==
  LET T == Splice(text, i, j, w)
      r == Reparse(text, T, tree, i, j, Len(w))
  IN  /\ text' = T /\ tree' = r.x /\ rng' = <<r.a, r.b>>
      /\ last' = IF F(fam).design THEN [i |-> i, j |-> j, w |-> w, from |-> text, was |-> tree, local |-> r.ok]
                 ELSE [NoEdit EXCEPT !.i = i, !.w = w, !.local = r.ok]
      /\ hist' = Append(hist, [i |-> i, j |-> j, w |-> w, a |-> r.a, b |-> r.b])
      /\ UNCHANGED <<fam, seed>>
Free == /\ n >= 0 /\ n < F(fam).steps /\ n' = n + 1
        /\ \E i \in 0..Len(text) : \E j \in i..Min2(Len(text), i + F(fam).del) :
             \E k \in DOMAIN F(fam).frags : Do(i, j, F(fam).frags[k])
Play == /\ n >= 1000 /\ n' = n
        /\ LET s == F(fam).seeds[n \div 1000].script IN
           Len(hist) < Len(s) /\ LET o == s[Len(hist) + 1] IN Do(o.i, o.j, o.w)
Spec == Init /\ [][Open \/ Free \/ Play]_vars

---------------------------------------------------------------------------
(* The design.                                                             *)
Exact == n < 0 \/ tree = Parse(text, Markup)
Covers == hist = <<>> \/ (/\ rng[1] <= last.i /\ last.i + Len(last.w) <= rng[2] /\ rng[2] <= Len(text))

RECURSIVE NodesAt(_, _), KidsAt(_, _)
NodesAt(x, p) == <<[k |-> x.k, l |-> x.l, p |-> p, r |-> x.r]>> \o KidsAt(x.c, p)
KidsAt(c, p) == IF c = <<>> THEN <<>> ELSE NodesAt(Head(c), p) \o KidsAt(Tail(c), p + Head(c).l)
\* Nodes (not empty ones) of a tree outside positions a..b-1, those behind moved by d.
Outside(x, a, b, d) ==
  LET ns == NodesAt(x, 0)
      out == SelectSeq(ns, LAMBDA y : y.l > 0 /\ (y.p + y.l <= a \/ y.p >= b))
  IN  [i \in DOMAIN out |-> <<out[i].k, out[i].l, IF out[i].p >= b THEN out[i].p + d ELSE out[i].p>>]
Delta == Len(last.w) - (last.j - last.i)
Untouched == hist = <<>> \/ ~F(fam).design \/
  Outside(last.was, rng[1], rng[2] - Delta, Delta) = Outside(tree, rng[1], rng[2], 0)
\* If nothing outside a block changes, the block absorbs the edit.
Local == hist = <<>> \/ ~F(fam).design \/ last.was.r \/ tree.r \/
  LET ns == NodesAt(last.was, 0) ms == NodesAt(tree, 0) IN
  \A i \in DOMAIN ns :
    (/\ ns[i].k \in {"CodeBlock", "ContentBlock"} /\ Includes(ns[i].p, ns[i].p + ns[i].l, last.i, last.j)
     /\ \E j \in DOMAIN ms : ms[j].k = ns[i].k /\ ms[j].p = ns[i].p /\ ms[j].l = ns[i].l + Delta
     /\ Outside(last.was, ns[i].p, ns[i].p + ns[i].l, Delta) = Outside(tree, ns[i].p, ns[i].p + ns[i].l + Delta, 0))
    => ns[i].p <= rng[1] /\ rng[2] <= ns[i].p + ns[i].l + Delta

\* Byte ranges of the edits (against the text each applies to), and the sizes
\* of the ranges read again.
RECURSIVE Bytes(_, _)
Bytes(T, h) ==
  IF h = <<>> THEN <<>>
  ELSE LET o == Head(h) T1 == Splice(T, o.i, o.j, o.w)
           a == Utf8Len(SubSeq(T, 1, o.i))
           c == Utf8Len(SubSeq(T1, 1, o.a)) IN
       <<[i |-> a, j |-> a + Utf8Len(SubSeq(T, o.i + 1, o.j)), w |-> o.w, a |-> c, b |-> c + Utf8Len(SubSeq(T1, o.a + 1, o.b))]>>
       \o Bytes(T1, Tail(h))
Emit == n < 0 \/ (n >= 1000 /\ Len(hist) < Len(F(fam).seeds[n \div 1000].script)) \/ hist = <<>> \/
  PrintT(ToJson(<<seed, Bytes(seed, hist), text>>))
=============================================================================
