------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Texts are sequences of Unicode scalar values (naturals).  This module   *)
(* fixes the character classes Typst's lexical grammar refers to, their    *)
(* UTF-8 and UTF-16 widths, and elementary scanning operators.             *)
(*                                                                         *)
(* ASCII is covered completely.  Of the remaining scalar values the        *)
(* operators below classify the representatives listed in NonAscii (one or *)
(* more for every combination of classes the grammar distinguishes); texts *)
(* used for conformance checking only contain those.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

EOF == -1

\* U+00E9 e acute, U+00DF sharp s, U+03B1 alpha, U+4E2D han, U+3042 hiragana,
\* U+30A2 katakana, U+D55C hangul, U+1D4B3 script X, U+1F600 emoji,
\* U+0301 combining acute, U+2028 LS, U+2029 PS, U+0085 NEL, U+00A0 NBSP,
\* U+3000 ideographic space, U+FFFD replacement, U+2212 minus, U+00BD 1/2,
\* U+2167 roman VIII, U+00B2 superscript two, U+00B7 middle dot,
\* U+0663 arabic digit 3, U+20AC euro, U+FEFF zero width no-break space,
\* U+221A.. square, cube, fourth root, U+27E8/9 angle brackets, U+23B0/1
\* moustaches, U+27C5/6 bag delimiters, U+24B6 circled A, U+200B zero width
\* space
NonAscii == {233, 223, 945, 20013, 12354, 12450, 54620, 119987, 128512,
             769, 8232, 8233, 133, 160, 12288, 65533, 8722, 189,
             8551, 178, 183, 1635, 8364, 65279,
             8730, 8731, 8732, 10216, 10217, 9136, 9137, 10181, 10182, 9398, 8203}

AsciiDigit(c) == c \in 48..57
AsciiLower(c) == c \in 97..122
AsciiUpper(c) == c \in 65..90
AsciiAlpha(c) == c \in 97..122 \/ c \in 65..90
AsciiAlnum(c) == AsciiAlpha(c) \/ AsciiDigit(c)

Newline(c) == c \in {10, 11, 12, 13, 133, 8232, 8233}
White(c)   == c \in {9, 10, 11, 12, 13, 32, 133, 160, 8232, 8233, 12288}

Letter(c)  == AsciiAlpha(c) \/ c \in {233, 223, 945, 20013, 12354, 12450, 54620, 119987}
Number(c)  == AsciiDigit(c) \/ c \in {189, 8551, 178, 1635}
Alphabetic(c) == Letter(c) \/ c \in {8551, 9398}
Alnum(c)   == Alphabetic(c) \/ Number(c)
CJK(c)     == c \in {20013, 12354, 12450, 54620}

XidStart(c)    == Letter(c) \/ c = 8551
XidContinue(c) == XidStart(c) \/ AsciiDigit(c) \/ c \in {95, 769, 183, 1635}
IdStart(c)     == XidStart(c) \/ c = 95
IdContinue(c)  == XidContinue(c) \/ c \in {95, 45}
InLabel(c)     == IdContinue(c) \/ c \in {58, 46}

Combining(c)   == c = 769
Control(c)     == c \in 0..31 \/ c \in {127, 65279, 8203}
\* Math classes (those that matter to the grammar).
Opening(c)     == c \in {40, 91, 123, 10216, 9136, 10181}
Closing(c)     == c \in {41, 93, 125, 10217, 9137, 10182}

Utf8(c)  == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
Utf16(c) == IF c < 65536 THEN 1 ELSE 2

RECURSIVE Utf8Len(_)
Utf8Len(T) == IF T = <<>> THEN 0 ELSE Utf8(Head(T)) + Utf8Len(Tail(T))
RECURSIVE Utf16Len(_)
Utf16Len(T) == IF T = <<>> THEN 0 ELSE Utf16(Head(T)) + Utf16Len(Tail(T))

(***************************************************************************)
(* Scanning.  Positions are 0-based character offsets: T[i+1] is the       *)
(* character at position i.                                                *)
(***************************************************************************)
Ch(T, i) == IF i >= 0 /\ i < Len(T) THEN T[i + 1] ELSE EOF
Is(T, i, c) == i >= 0 /\ i < Len(T) /\ T[i + 1] = c
IsIn(T, i, S) == i >= 0 /\ i < Len(T) /\ T[i + 1] \in S
HasPrefix(T, i, s) == /\ i + Len(s) <= Len(T)
                      /\ \A k \in 1..Len(s) : T[i + k] = s[k]
Slice(T, i, j) == SubSeq(T, i + 1, j)

\* End of the maximal run of characters satisfying P that starts at i.
While(T, i, P(_)) ==
  CHOOSE j \in i..Len(T) : /\ (j = Len(T) \/ ~P(T[j + 1]))
                           /\ \A k \in i..(j - 1) : P(T[k + 1])
Until(T, i, P(_)) ==
  CHOOSE j \in i..Len(T) : /\ (j = Len(T) \/ P(T[j + 1]))
                           /\ \A k \in i..(j - 1) : ~P(T[k + 1])

\* Position after one newline (CRLF counts as one), assuming Newline(T[i+1]).
AfterNewline(T, i) == IF T[i + 1] = 13 /\ Is(T, i + 1, 10) THEN i + 2 ELSE i + 1

\* Number of newlines in positions i..j-1, CRLF counting once.
RECURSIVE CountNewlines(_, _, _)
CountNewlines(T, i, j) ==
  IF i >= j THEN 0
  ELSE IF ~Newline(T[i + 1]) THEN CountNewlines(T, i + 1, j)
  ELSE IF T[i + 1] = 13 /\ i + 1 < j /\ T[i + 2] = 10
       THEN 1 + CountNewlines(T, i + 2, j)
       ELSE 1 + CountNewlines(T, i + 1, j)

\* Characters between position i and the closest newline before it.
Column(T, i) ==
  IF \E k \in 0..(i - 1) : Newline(T[k + 1])
  THEN i - 1 - (CHOOSE k \in 0..(i - 1) : /\ Newline(T[k + 1])
                                          /\ \A m \in (k + 1)..(i - 1) : ~Newline(T[m + 1]))
  ELSE i
=============================================================================
