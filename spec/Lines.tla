--------------------------------- MODULE Lines ---------------------------------
(***************************************************************************)
(* A text under edits and the table of its lines.                          *)
(*                                                                         *)
(* The table is maintained the way an incremental implementation does it   *)
(* (keep the lines that start no later than the edit, recompute the rest,  *)
(* starting one character earlier when that character is a carriage        *)
(* return); TLC checks that it always is the table the definition assigns  *)
(* to the text.  Positions in the model are character offsets; what an     *)
(* implementation reports is derived from the widths of the characters.    *)
(*                                                                         *)
(* Families either leave the edits open (every range, every replacement    *)
(* from a list) or script them (long histories drawn with the seed).       *)
(***************************************************************************)
EXTENDS Chars, Json, IOUtils, SequencesExt

Cfg == JsonDeserialize(IOEnv.VERIF_CFG)
Fam == Cfg.fams
Buckets == 16
F(f) == Fam[f]

VARIABLES fam, seed, text, tab, hist, n
vars == <<fam, seed, text, tab, hist, n>>

---------------------------------------------------------------------------
\* The definition: a line starts at 0 and after every line terminator.
Terminator(T, i) == /\ i >= 0 /\ i < Len(T) /\ Newline(T[i + 1])
                    /\ ~(T[i + 1] = 13 /\ Is(T, i + 1, 10))      \* CRLF ends at its LF
StartsOf(T) == {0} \union {i + 1 : i \in {k \in 0..(Len(T) - 1) : Terminator(T, k)}}
Index(T) == SetToSortSeq(StartsOf(T), LAMBDA a, b : a < b)

\* Line containing position p (0-based): the last one starting at or before p.
LineOf(tb, p) == CHOOSE l \in 0..(Len(tb) - 1) : /\ tb[l + 1] <= p
                                                 /\ l + 1 = Len(tb) \/ tb[l + 2] > p

\* Line starts found scanning from position s.
RECURSIVE From(_, _)
From(T, s) ==
  IF s >= Len(T) THEN <<>>
  ELSE IF ~Newline(T[s + 1]) THEN From(T, s + 1)
  ELSE <<AfterNewline(T, s)>> \o From(T, AfterNewline(T, s))

Splice(T, i, j, w) == SubSeq(T, 1, i) \o w \o SubSeq(T, j + 1, Len(T))
EditTab(T, tb, i, j, w) ==
  LET s == IF i > 0 /\ T[i] = 13 THEN i - 1 ELSE i IN
  SubSeq(tb, 1, LineOf(tb, s) + 1) \o From(Splice(T, i, j, w), s)

\* The smallest single replacement that turns A into B.
RECURSIVE CommonPre(_, _, _)
CommonPre(A, B, k) == IF k < Len(A) /\ k < Len(B) /\ A[k + 1] = B[k + 1] THEN CommonPre(A, B, k + 1) ELSE k
RECURSIVE CommonSuf(_, _, _, _)
CommonSuf(A, B, p, k) == IF k < Len(A) - p /\ k < Len(B) - p /\ A[Len(A) - k] = B[Len(B) - k]
                         THEN CommonSuf(A, B, p, k + 1) ELSE k
Diff(A, B) == LET p == CommonPre(A, B, 0) s == CommonSuf(A, B, p, 0) IN [p |-> p, s |-> s]

---------------------------------------------------------------------------
Ed(i, j, w) == [op |-> "edit", i |-> i, j |-> j, w |-> w]
Rp(w) == [op |-> "replace", i |-> 0, j |-> 0, w |-> w]
Do(o) ==
  /\ hist' = Append(hist, o) /\ UNCHANGED <<fam, seed>>
  /\ IF o.op = "edit" THEN /\ text' = Splice(text, o.i, o.j, o.w)
                           /\ tab' = EditTab(text, tab, o.i, o.j, o.w)
     ELSE IF o.w = text THEN UNCHANGED <<text, tab>>
     ELSE LET d == Diff(text, o.w) IN
          /\ text' = Splice(text, d.p, Len(text) - d.s, SubSeq(o.w, d.p + 1, Len(o.w) - d.s))
          /\ tab' = EditTab(text, tab, d.p, Len(text) - d.s, SubSeq(o.w, d.p + 1, Len(o.w) - d.s))

Init == /\ fam \in DOMAIN Fam /\ seed \in {<<b>> : b \in 0..(Buckets - 1)}
        /\ text = <<>> /\ tab = <<0>> /\ hist = <<>> /\ n = -1
Open == /\ n = -1
        /\ \E i \in {j \in DOMAIN F(fam).seeds : j % Buckets = seed[1]} :
             /\ seed' = F(fam).seeds[i].text /\ text' = seed' /\ tab' = Index(text')
             /\ n' = IF F(fam).seeds[i].script = <<>> THEN 0 ELSE 1000 * i
             /\ UNCHANGED <<fam, hist>>
Free == /\ n >= 0 /\ n < F(fam).steps /\ n' = n + 1
        /\ \/ \E i \in 0..Len(text) : \E j \in i..Len(text) : \E k \in DOMAIN F(fam).frags : Do(Ed(i, j, F(fam).frags[k]))
           \/ \E k \in DOMAIN F(fam).news : Do(Rp(F(fam).news[k]))
Play == /\ n >= 1000 /\ LET s == F(fam).seeds[n \div 1000].script IN
          /\ Len(hist) < Len(s) /\ Do(s[Len(hist) + 1]) /\ n' = n
Spec == Init /\ [][Open \/ Free \/ Play]_vars

---------------------------------------------------------------------------
\* What a reader of the text sees.
ByteAt(T, p) == Utf8Len(SubSeq(T, 1, p))
Utf16At(T, p) == Utf16Len(SubSeq(T, 1, p))
EndOf(T, tb, l) == IF l + 1 = Len(tb) THEN Len(T) ELSE tb[l + 2]
Pos(T, tb, p) == [b |-> ByteAt(T, p), u |-> Utf16At(T, p), l |-> LineOf(tb, p), c |-> p - tb[LineOf(tb, p) + 1]]

\* Design checks.
TableExact == n < 0 \/ tab = Index(text)
OneLineEach == n < 0 \/ Len(tab) = 1 + CountNewlines(text, 0, Len(text))
Increasing == \A i \in DOMAIN tab : tab[i] <= Len(text) /\ (i = 1 \/ tab[i - 1] < tab[i])
Invertible == n < 0 \/ \A p \in 0..Len(text) :
                LET x == Pos(text, tab, p) IN
                /\ \A q \in 0..Len(text) : LET y == Pos(text, tab, q) IN p # q => x.b # y.b /\ x.u # y.u /\ <<x.l, x.c>> # <<y.l, y.c>>
                /\ tab[x.l + 1] + x.c = p
Minimal == n < 0 \/ \A k \in DOMAIN F(fam).news :
             LET w == F(fam).news[k] d == Diff(text, w) IN
             w # text => /\ SubSeq(text, 1, d.p) = SubSeq(w, 1, d.p)
                         /\ Splice(text, d.p, Len(text) - d.s, SubSeq(w, d.p + 1, Len(w) - d.s)) = w
                         /\ \A p \in 0..Len(text) : \A s \in 0..(Len(text) - p) :
                              (p <= Len(w) /\ s <= Len(w) - p /\ SubSeq(text, 1, p) = SubSeq(w, 1, p)
                               /\ SubSeq(text, Len(text) - s + 1, Len(text)) = SubSeq(w, Len(w) - s + 1, Len(w)))
                              => p <= d.p

\* Byte ranges of the operations (against the text each applies to).
RECURSIVE Bytes(_, _)
Bytes(T, h) ==
  IF h = <<>> THEN <<>>
  ELSE LET o == Head(h) IN
       IF o.op = "edit"
       THEN <<[op |-> "edit", i |-> ByteAt(T, o.i), j |-> ByteAt(T, o.j), w |-> o.w]>> \o Bytes(Splice(T, o.i, o.j, o.w), Tail(h))
       ELSE LET d == Diff(T, o.w) IN
            <<[op |-> "replace", i |-> IF o.w = T THEN -1 ELSE ByteAt(T, d.p),
               j |-> IF o.w = T THEN -1 ELSE Utf8Len(SubSeq(T, Len(T) - d.s + 1, Len(T))), w |-> o.w]>> \o Bytes(o.w, Tail(h))

\* <<seed, operations, text, lines, conversions>>
Emit == n < 0 \/ (n >= 1000 /\ Len(hist) < Len(F(fam).seeds[n \div 1000].script) /\ Len(hist) % F(fam).every # 0) \/
  PrintT(ToJson(<<seed, Bytes(seed, hist), text,
    [i \in DOMAIN tab |-> <<ByteAt(text, tab[i]), Utf16At(text, tab[i]), ByteAt(text, EndOf(text, tab, i - 1)),
                            EndOf(text, tab, i - 1) - tab[i]>>],
    IF F(fam).conv THEN [p \in 1..(Len(text) + 1) |-> LET x == Pos(text, tab, p - 1) IN <<x.b, x.u, x.l, x.c>>] ELSE <<>>>>))
=============================================================================
