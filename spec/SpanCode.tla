-------------------------------- MODULE SpanCode -------------------------------
(***************************************************************************)
(* The encoding of spans in 64 bits: 16 bits of file, 48 bits of number,   *)
(* where numbers below 2^47 identify nodes and those above hold a pair of  *)
(* byte positions of 23 bits each.  TLC's integers have 32 bits, so a word *)
(* is a sequence of bits, least significant first.                         *)
(*                                                                         *)
(* State: the spans made so far (a history).  Every way to make one is an  *)
(* action; the invariants state that no two different things share a code  *)
(* and that each code yields back what it was made from.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.VERIF_CFG)   \* ids, numbers, parts: words as sequences of set bits
CONSTANT NumberBits, PartBits             \* 48 and 23 (smaller ones to check the design exhaustively)
Base == NumberBits - 1

Word(ones, n) == [i \in 1..n |-> IF (i - 1) \in ones THEN 1 ELSE 0]
Ones(w) == {i - 1 : i \in {j \in DOMAIN w : w[j] = 1}}
Range_(s) == {s[i] : i \in DOMAIN s}
\* As sets of set bits, words need no width.
Max(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : y <= x
Full(n) == 0..(n - 1)
Shift(S, k) == {x + k : x \in S}
Low(S, k) == {x \in S : x < k}
High(S, k) == {x - k : x \in {y \in S : y >= k}}

Clamp(S) == IF Max(S) >= PartBits THEN Full(PartBits) ELSE S
Valid(S) == Max(S) < Base /\ Max(S) >= 1     \* 2 <= number < 2^47
Detached == [t |-> "detached", id |-> {}, n |-> {}, a |-> {}, b |-> {}]

\* The code of a span as the set of its bits.
Code(x) == CASE x.t = "detached" -> {0}
             [] x.t = "number" -> x.n \cup Shift(x.id, NumberBits)
             [] x.t = "range" -> Clamp(x.b) \cup Shift(Clamp(x.a), PartBits) \cup {Base} \cup Shift(x.id, NumberBits)
\* What a code says.
IdOf(c) == High(c, NumberBits)
NumberOf(c) == Low(c, NumberBits)
IsRange(c) == Base \in c
RangeOf(c) == [a |-> High(Low(c, Base), PartBits), b |-> Low(c, PartBits)]

VARIABLES file, made
Init == file \in DOMAIN Cfg.ids /\ made = Detached
Next == /\ made = Detached /\ file' = file
        /\ LET i == file IN
           \/ \E n \in DOMAIN Cfg.numbers :
                made' = [t |-> IF Valid(Range_(Cfg.numbers[n])) THEN "number" ELSE "rejected", id |-> Range_(Cfg.ids[i]), n |-> Range_(Cfg.numbers[n]), a |-> {}, b |-> {}]
           \/ \E p, q \in DOMAIN Cfg.parts :
                made' = [t |-> "range", id |-> Range_(Cfg.ids[i]), n |-> {}, a |-> Range_(Cfg.parts[p]), b |-> Range_(Cfg.parts[q])]
Spec == Init /\ [][Next]_<<file, made>>

\* Each code yields back what it was made from, and its sort.
Yields == made.t = "rejected" \/
  LET c == Code(made) IN
  /\ IdOf(c) = made.id
  /\ (c = {0}) <=> made.t = "detached"
  /\ IsRange(c) <=> made.t = "range"
  /\ made.t = "number" => NumberOf(c) = made.n
  /\ made.t = "range" => RangeOf(c) = [a |-> Clamp(made.a), b |-> Clamp(made.b)]
  /\ Max(c) < NumberBits + 16

Bits(S) == LET RECURSIVE go(_, _)
               go(i, acc) == IF i > 63 THEN acc ELSE go(i + 1, IF i \in S THEN Append(acc, i) ELSE acc)
           IN  go(0, <<>>)
Emit == PrintT(ToJson(<<made.t, Bits(made.id), Bits(made.n), Bits(made.a), Bits(made.b),
                        IF made.t = "rejected" THEN <<>> ELSE Bits(Code(made)),
                        Bits(Clamp(made.a)), Bits(Clamp(made.b))>>))
=============================================================================
