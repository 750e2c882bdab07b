------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* Typst's lexical grammar (markup, math and code modes).                  *)
(*                                                                         *)
(* Lex(T, i, mode) is the token of text T that starts at position i:       *)
(*   k   its kind ("Error" for malformed tokens, "End" at the end)         *)
(*   e   the position after it                                             *)
(*   nl  whether it contains a newline (trivia only)                       *)
(*   n   the syntax node it contributes                                    *)
(*                                                                         *)
(* Syntax nodes are records: t = "L" leaf, "I" inner, "E" error; k kind;   *)
(* l length in characters; c children; m message; h hints; r whether it is *)
(* or contains an error.  A node stands for the l characters of the text   *)
(* at its position, so no text is stored.  Messages are a format with a    *)
(* "%" for an argument, and the argument (a text).                         *)
(***************************************************************************)
EXTENDS Chars, Kinds

Msg(f, a)      == [f |-> f, a |-> a]
Leaf(k, l)     == [t |-> "L", k |-> k, l |-> l, c |-> <<>>, m |-> Msg("", <<>>), h |-> <<>>, r |-> FALSE]
Err(l, m, h)   == [t |-> "E", k |-> "Error", l |-> l, c |-> <<>>, m |-> m, h |-> h, r |-> TRUE]

RECURSIVE SumLen(_)
SumLen(c) == IF c = <<>> THEN 0 ELSE Head(c).l + SumLen(Tail(c))
Inner(k, c)    == [t |-> "I", k |-> k, l |-> SumLen(c), c |-> c, m |-> Msg("", <<>>), h |-> <<>>,
                   r |-> \E i \in 1..Len(c) : c[i].r]

Tok(k, i, e)      == [k |-> k, e |-> e, nl |-> FALSE, n |-> Leaf(k, e - i)]
BadTok(i, e, m, h) == [k |-> "Error", e |-> e, nl |-> FALSE, n |-> Err(e - i, m, h)]

Markup == "Markup"
Code   == "Code"
Math   == "Math"

IsSpace(c, mode) == IF mode = Markup THEN c \in {32, 9} \/ Newline(c) ELSE White(c)

(***************************** shared tokens *******************************)

WhiteTok(T, i, mode) ==
  LET e  == While(T, i, LAMBDA c : IsSpace(c, mode))
      nn == CountNewlines(T, i, e)
      k  == IF mode = Markup /\ nn >= 2 THEN "Parbreak" ELSE "Space"
  IN  [k |-> k, e |-> e, nl |-> nn > 0, n |-> Leaf(k, e - i)]

LineEnd(T, i) == Until(T, i, Newline)

\* End of the block comment whose depth is d and whose last significant
\* character was s ("_" = 95: none); at end of text it is closed implicitly.
RECURSIVE CommentEnd(_, _, _, _)
CommentEnd(T, i, d, s) ==
  IF i >= Len(T) THEN i
  ELSE LET c == T[i + 1] IN
    IF s = 42 /\ c = 47 THEN IF d = 1 THEN i + 1 ELSE CommentEnd(T, i + 1, d - 1, 95)
    ELSE IF s = 47 /\ c = 42 THEN CommentEnd(T, i + 1, d + 1, 95)
    ELSE CommentEnd(T, i + 1, d, c)

(******************************** raw text *********************************)

\* Position after the closing run of b backticks, searching from i; -1 if none.
RECURSIVE RawClose(_, _, _, _)
RawClose(T, i, b, found) ==
  IF found = b THEN i
  ELSE IF i >= Len(T) THEN -1
  ELSE RawClose(T, i + 1, b, IF T[i + 1] = 96 THEN found + 1 ELSE 0)

\* Lines (without terminators) of positions i..j-1, as pairs <<start, end>>.
RECURSIVE LinesOf(_, _, _, _)
LinesOf(T, i, s, j) ==
  IF i >= j THEN <<<<s, j>>>>
  ELSE IF Newline(T[i + 1])
       THEN LET e == IF T[i + 1] = 13 /\ i + 1 < j /\ T[i + 2] = 10 THEN i + 2 ELSE i + 1
            IN  <<<<s, i>>>> \o LinesOf(T, e, e, j)
       ELSE LinesOf(T, i + 1, s, j)

AllWhite(T, ln) == \A k \in ln[1]..(ln[2] - 1) : White(T[k + 1])
LeadWhite(T, ln) ==
  CHOOSE n \in 0..(ln[2] - ln[1]) :
     /\ (n = ln[2] - ln[1] \/ ~White(T[ln[1] + n + 1]))
     /\ \A k \in 0..(n - 1) : White(T[ln[1] + k + 1])
\* Last non-white character of the line is a backtick.
EndsInTick(T, ln) ==
  \E k \in ln[1]..(ln[2] - 1) : /\ T[k + 1] = 96
                                /\ \A m \in (k + 1)..(ln[2] - 1) : White(T[m + 1])

Min(S) == CHOOSE x \in S : \A y \in S : x <= y

\* Children for the lines after the first: separator + dedent, then the text.
RECURSIVE RawLines(_, _, _, _)
RawLines(T, p, lines, dedent) ==
  IF lines = <<>> THEN [p |-> p, c |-> <<>>]
  ELSE LET ln  == Head(lines)
           off == IF dedent < ln[2] - ln[1] THEN dedent ELSE ln[2] - ln[1]
           rest == RawLines(T, ln[2], Tail(lines), dedent)
       IN  [p |-> rest.p,
            c |-> <<Leaf("RawTrimmed", ln[1] + off - p), Leaf("Text", ln[2] - ln[1] - off)>> \o rest.c]

BlockyRaw(T, i, j) ==
  LET lang  == IF i < j /\ IdStart(T[i + 1]) THEN While(T, i, IdContinue) ELSE i
      ls    == LinesOf(T, lang, lang, j)
      nl    == Len(ls)
      last  == ls[nl]
      dedent == Min({LeadWhite(T, last)}
                    \cup {LeadWhite(T, ls[k]) : k \in {q \in 2..nl : ~AllWhite(T, ls[q])}})
      ls2   == IF AllWhite(T, last) THEN SubSeq(ls, 1, nl - 1)
               ELSE IF EndsInTick(T, last) /\ T[last[2]] = 32
                    THEN [ls EXCEPT ![nl] = <<last[1], last[2] - 1>>]
               ELSE ls
      first == ls2[1]
      \* children for the language tag and the first line, and position reached
      tag   == IF lang > i THEN <<Leaf("RawLang", lang - i)>> ELSE <<>>
      hasfst == ls2 # <<>> /\ ~AllWhite(T, first)
      sp    == IF hasfst /\ Is(T, lang, 32) THEN 1 ELSE 0
      head  == IF ~hasfst THEN <<>>
               ELSE (IF sp = 1 THEN <<Leaf("RawTrimmed", 1)>> ELSE <<>>)
                    \o <<Leaf("Text", first[2] - lang - sp)>>
      p0    == IF hasfst THEN first[2] ELSE lang
      rest  == IF ls2 = <<>> THEN [p |-> p0, c |-> <<>>]
               ELSE RawLines(T, p0, Tail(ls2), dedent)
      fin   == IF rest.p < j THEN <<Leaf("RawTrimmed", j - rest.p)>> ELSE <<>>
  IN  tag \o head \o rest.c \o fin

RECURSIVE InlineRaw(_, _, _, _)
InlineRaw(T, s, i, j) ==
  IF i >= j THEN <<Leaf("Text", i - s)>>
  ELSE IF Newline(T[i + 1])
       THEN LET e == AfterNewline(T, i)
            IN  <<Leaf("Text", i - s), Leaf("RawTrimmed", e - i)>> \o InlineRaw(T, e, e, j)
       ELSE InlineRaw(T, s, i + 1, j)

RawTok(T, i) ==
  LET b == While(T, i, LAMBDA c : c = 96) - i
      e == RawClose(T, i + b, b, 0)
      inner == IF b >= 3 THEN BlockyRaw(T, i + b, e - b) ELSE InlineRaw(T, i + b, i + b, e - b)
      node(c) == Inner("Raw", c)
  IN  IF b = 2 THEN [k |-> "Raw", e |-> i + 2, nl |-> FALSE,
                     n |-> node(<<Leaf("RawDelim", 1), Leaf("RawDelim", 1)>>)]
      ELSE IF e = -1 THEN BadTok(i, Len(T), Msg("unclosed raw text", <<>>), <<>>)
      ELSE [k |-> "Raw", e |-> e, nl |-> FALSE,
            n |-> node(<<Leaf("RawDelim", b)>> \o inner \o <<Leaf("RawDelim", b)>>)]

(***************************** markup tokens *******************************)

HexVal(c) == IF AsciiDigit(c) THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE c - 55
IsHex(c)  == AsciiDigit(c) \/ c \in 97..102 \/ c \in 65..70

\* Value of hex digits T[i+1..j], saturating above any scalar value.
RECURSIVE HexNum(_, _, _, _)
HexNum(T, i, j, acc) ==
  IF i >= j THEN acc
  ELSE HexNum(T, i + 1, j, IF acc > 1114111 THEN acc ELSE acc * 16 + HexVal(T[i + 1]))
ValidScalarHex(T, i, j) ==
  /\ j > i
  /\ \A k \in i..(j - 1) : IsHex(T[k + 1])
  /\ LET v == HexNum(T, i, j, 0) IN v <= 1114111 /\ v \notin 55296..57343

BackslashTok(T, i) ==
  IF HasPrefix(T, i + 1, <<117, 123>>)
  THEN LET s == i + 3
           j == While(T, s, AsciiAlnum)
       IN  IF ~Is(T, j, 125) THEN BadTok(i, j, Msg("unclosed Unicode escape sequence", <<>>), <<>>)
           ELSE IF ValidScalarHex(T, s, j) THEN Tok("Escape", i, j + 1)
           ELSE BadTok(i, j + 1, Msg("invalid Unicode codepoint: %", Slice(T, s, j)), <<>>)
  ELSE IF i + 1 >= Len(T) \/ White(T[i + 2]) THEN Tok("Linebreak", i, i + 1)
  ELSE Tok("Escape", i, i + 2)

SpaceOrEnd(T, i) ==
  \/ i >= Len(T) \/ White(T[i + 1])
  \/ HasPrefix(T, i, <<47, 47>>) \/ HasPrefix(T, i, <<47, 42>>)

HTTP  == <<104, 116, 116, 112, 58, 47, 47>>           \* http://
HTTPS == <<104, 116, 116, 112, 115, 58, 47, 47>>      \* https://

LinkPlain == 48..57 \cup 97..122 \cup 65..90
             \cup {33, 35, 36, 37, 38, 42, 43, 44, 45, 46, 47, 58, 59, 61, 63, 64, 95, 126, 39}
\* Scan of a link body: position reached and the stack of open brackets.  A
\* mismatched closing bracket ends the link but has consumed its opener.
RECURSIVE LinkScan(_, _, _)
LinkScan(T, i, st) ==
  IF i >= Len(T) THEN [e |-> i, st |-> st]
  ELSE LET c == T[i + 1]
           pop == IF st = <<>> THEN st ELSE SubSeq(st, 1, Len(st) - 1)
           top == IF st = <<>> THEN 0 ELSE st[Len(st)]
       IN IF c \in LinkPlain THEN LinkScan(T, i + 1, st)
          ELSE IF c \in {91, 40} THEN LinkScan(T, i + 1, Append(st, c))
          ELSE IF c = 93 THEN IF top = 91 THEN LinkScan(T, i + 1, pop) ELSE [e |-> i, st |-> pop]
          ELSE IF c = 41 THEN IF top = 40 THEN LinkScan(T, i + 1, pop) ELSE [e |-> i, st |-> pop]
          ELSE [e |-> i, st |-> st]
LinkTok(T, i, body) ==
  LET r == LinkScan(T, body, <<>>)
      \* trailing punctuation belongs to the surrounding text
      e == CHOOSE j \in body..r.e :
             /\ j = body \/ T[j] \notin {33, 44, 46, 58, 59, 63, 39}
             /\ \A k \in (j + 1)..r.e : T[k] \in {33, 44, 46, 58, 59, 63, 39}
  IN  IF r.st = <<>> THEN Tok("Link", i, e)
      ELSE BadTok(i, e, Msg("automatic links cannot contain unbalanced brackets, use the `link` function instead", <<>>), <<>>)

LabelTok(T, i) ==
  LET j == While(T, i + 1, InLabel) IN
  IF j = i + 1 THEN BadTok(i, j, Msg("label cannot be empty", <<>>), <<>>)
  ELSE IF ~Is(T, j, 62) THEN BadTok(i, j, Msg("unclosed label", <<>>), <<>>)
  ELSE Tok("Label", i, j + 1)

RefTok(T, i) ==
  LET j == While(T, i + 1, InLabel)
      e == CHOOSE k \in (i + 1)..j :
             /\ k = i + 1 \/ T[k] \notin {46, 58}
             /\ \A m \in (k + 1)..j : T[m] \in {46, 58}
  IN  Tok("RefMarker", i, e)

Special == {32, 9, 10, 11, 12, 13, 92, 47, 91, 93, 126, 45, 46, 39, 34, 42, 95,
            58, 104, 96, 36, 60, 62, 64, 35}
\* Where plain text that has reached position i ends.
RECURSIVE TextEnd(_, _)
TextEnd(T, i) ==
  LET j == Until(T, i, LAMBDA c : c \in Special \/ White(c)) IN
  IF j >= Len(T) THEN j
  ELSE LET c == T[j + 1]
           n == j + 1
           cont == \/ c = 32 /\ n < Len(T) /\ Alnum(T[n + 1])
                   \/ c = 47 /\ ~IsIn(T, n, {47, 42})
                   \/ c = 45 /\ ~IsIn(T, n, {45, 63})
                   \/ c = 46 /\ ~HasPrefix(T, n, <<46, 46>>)
                   \/ c = 104 /\ ~HasPrefix(T, n, Tail(HTTP)) /\ ~HasPrefix(T, n, Tail(HTTPS))
                   \/ c = 64 /\ ~(n < Len(T) /\ InLabel(T[n + 1]))
       IN IF cont THEN TextEnd(T, n) ELSE j
TextTok(T, i, from) == Tok("Text", i, TextEnd(T, from))

\* Whether the character at i-1 sits between two characters of a word.
InWord(T, i) ==
  LET wordy(c) == c # EOF /\ Alnum(c) /\ ~CJK(c) IN
  wordy(Ch(T, i - 1)) /\ wordy(Ch(T, i + 1))

DigitsLE(a, b) ==  \* numeric comparison of equally long digit strings
  \/ a = b
  \/ \E k \in 1..Len(a) : a[k] < b[k] /\ \A m \in 1..(k - 1) : a[m] = b[m]
RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ d[1] = 48 THEN StripZeros(Tail(d)) ELSE d
MaxU64 == <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>
FitsU64(d) == LET s == StripZeros(d) IN Len(s) < 20 \/ (Len(s) = 20 /\ DigitsLE(s, MaxU64))

NumberingTok(T, i) ==
  LET j == While(T, i, AsciiDigit) IN
  IF Is(T, j, 46)
  THEN IF SpaceOrEnd(T, j + 1) /\ FitsU64(Slice(T, i, j)) THEN Tok("EnumMarker", i, j + 1)
       ELSE TextTok(T, i, j + 1)
  ELSE TextTok(T, i, j)

MarkupTok(T, i) ==
  LET c == T[i + 1]
      n == i + 1
      at(P(_)) == n < Len(T) /\ P(T[n + 1])
  IN
  CASE c = 92 -> BackslashTok(T, i)
    [] c = 104 /\ HasPrefix(T, i, HTTP)  -> LinkTok(T, i, i + 7)
    [] c = 104 /\ HasPrefix(T, i, HTTPS) -> LinkTok(T, i, i + 8)
    [] c = 60 /\ at(IdContinue) -> LabelTok(T, i)
    [] c = 64 /\ at(IdContinue) -> RefTok(T, i)
    [] c = 46 /\ HasPrefix(T, n, <<46, 46>>) -> Tok("Shorthand", i, i + 3)
    [] c = 45 /\ HasPrefix(T, n, <<45, 45>>) -> Tok("Shorthand", i, i + 3)
    [] c = 45 /\ Is(T, n, 45) /\ ~HasPrefix(T, n, <<45, 45>>) -> Tok("Shorthand", i, i + 2)
    [] c = 45 /\ Is(T, n, 63) -> Tok("Shorthand", i, i + 2)
    [] c = 45 /\ at(Number) -> Tok("Shorthand", i, i + 1)
    [] c = 42 /\ ~InWord(T, i) -> Tok("Star", i, n)
    [] c = 95 /\ ~InWord(T, i) -> Tok("Underscore", i, n)
    [] c = 35 -> Tok("Hash", i, n)
    [] c = 91 -> Tok("LeftBracket", i, n)
    [] c = 93 -> Tok("RightBracket", i, n)
    [] c \in {39, 34} -> Tok("SmartQuote", i, n)
    [] c = 36 -> Tok("Dollar", i, n)
    [] c = 126 -> Tok("Shorthand", i, n)
    [] c = 58 -> Tok("Colon", i, n)
    [] c = 61 -> LET j == While(T, i, LAMBDA d : d = 61) IN
                 IF SpaceOrEnd(T, j) THEN Tok("HeadingMarker", i, j) ELSE TextTok(T, i, j)
    [] c = 45 /\ SpaceOrEnd(T, n) -> Tok("ListMarker", i, n)
    [] c = 43 /\ SpaceOrEnd(T, n) -> Tok("EnumMarker", i, n)
    [] c = 47 /\ SpaceOrEnd(T, n) -> Tok("TermMarker", i, n)
    [] AsciiDigit(c) -> NumberingTok(T, i)
    [] OTHER -> TextTok(T, i, n)

(****************************** code tokens ********************************)

Keywords == << <<"None", <<110,111,110,101>>>>, <<"Auto", <<97,117,116,111>>>>,
  <<"Bool", <<116,114,117,101>>>>, <<"Bool", <<102,97,108,115,101>>>>,
  <<"Not", <<110,111,116>>>>, <<"And", <<97,110,100>>>>, <<"Or", <<111,114>>>>,
  <<"Let", <<108,101,116>>>>, <<"Set", <<115,101,116>>>>, <<"Show", <<115,104,111,119>>>>,
  <<"Context", <<99,111,110,116,101,120,116>>>>, <<"If", <<105,102>>>>,
  <<"Else", <<101,108,115,101>>>>, <<"For", <<102,111,114>>>>, <<"In", <<105,110>>>>,
  <<"While", <<119,104,105,108,101>>>>, <<"Break", <<98,114,101,97,107>>>>,
  <<"Continue", <<99,111,110,116,105,110,117,101>>>>, <<"Return", <<114,101,116,117,114,110>>>>,
  <<"Import", <<105,109,112,111,114,116>>>>, <<"Include", <<105,110,99,108,117,100,101>>>>,
  <<"As", <<97,115>>>> >>

IdentTok(T, i) ==
  LET e == While(T, i, IdContinue)
      id == Slice(T, i, e)
      \* after a single dot or an @ keywords are ordinary names
      plain == (Ch(T, i - 1) \notin {46, 64}) \/ (Ch(T, i - 1) = 46 /\ Ch(T, i - 2) = 46)
      kws == {k \in 1..Len(Keywords) : Keywords[k][2] = id}
  IN  IF plain /\ kws # {} THEN Tok(Keywords[CHOOSE k \in kws : TRUE][1], i, e)
      ELSE IF id = <<95>> THEN Tok("Underscore", i, e)
      ELSE Tok("Ident", i, e)

Suffixes == {<<112,116>>, <<109,109>>, <<99,109>>, <<105,110>>, <<100,101,103>>,
             <<114,97,100>>, <<101,109>>, <<102,114>>, <<37>>}

\* Decimal digits (as characters) of the value of digits in a given base.
RECURSIVE MulAdd(_, _, _, _)
MulAdd(d, k, b, carry) ==  \* d: digit values, most significant first; from position k down
  IF k = 0 THEN IF carry = 0 THEN <<>> ELSE MulAdd(<<>>, 0, b, carry \div 10) \o <<carry % 10>>
  ELSE LET v == d[k] * b + carry IN MulAdd(d, k - 1, b, v \div 10) \o <<v % 10>>
RECURSIVE ToDec(_, _, _, _)
ToDec(T, i, b, acc) ==  \* acc: decimal digit values so far; T: digit characters
  IF i > Len(T) THEN acc
  ELSE ToDec(T, i + 1, b, MulAdd(acc, Len(acc), b, HexVal(T[i])))
RECURSIVE StripZ(_)
StripZ(d) == IF Len(d) > 1 /\ d[1] = 0 THEN StripZ(Tail(d)) ELSE d
MaxI64 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
DecValue(D, b) == IF D = <<>> THEN <<0>> ELSE LET v == ToDec(D, 1, b, <<>>) IN IF v = <<>> THEN <<0>> ELSE StripZ(v)
FitsI64(v) == Len(v) < 19 \/ (Len(v) = 19 /\ DigitsLE(v, MaxI64))

NumberTok(T, i) ==
  LET c0   == T[i + 1]
      c1   == Ch(T, i + 1)
      base == IF c0 # 48 THEN 10 ELSE IF c1 = 98 THEN 2 ELSE IF c1 = 111 THEN 8
              ELSE IF c1 = 120 THEN 16 ELSE 10
      s    == IF base = 10 THEN i + 1 ELSE i + 2
      d0   == IF base = 16 THEN While(T, s, AsciiAlnum) ELSE While(T, s, AsciiDigit)
      \* fraction
      dot  == /\ base = 10 /\ c0 # 46
              /\ ~HasPrefix(T, d0, <<46, 46>>)
              /\ ~(d0 + 1 < Len(T) /\ IdStart(T[d0 + 2]))
              /\ Is(T, d0, 46)
      d1   == IF dot THEN While(T, d0 + 1, AsciiDigit) ELSE d0
      \* exponent
      exp  == base = 10 /\ ~HasPrefix(T, d1, <<101, 109>>) /\ IsIn(T, d1, {101, 69})
      x0   == IF IsIn(T, d1 + 1, {43, 45}) THEN d1 + 2 ELSE d1 + 1
      d2   == IF exp THEN While(T, x0, AsciiDigit) ELSE d1
      float == base = 10 /\ (c0 = 46 \/ dot \/ exp)
      num  == Slice(T, i, d2)
      e    == While(T, d2, LAMBDA c : AsciiAlnum(c) \/ c = 37)
      suf  == Slice(T, d2, e)
      sufBad == suf # <<>> /\ suf \notin Suffixes
      badExp == exp /\ d2 = x0
      digits == Slice(T, i + 2, d2)
      digitOK(c) == IF base = 2 THEN c \in 48..49 ELSE IF base = 8 THEN c \in 48..55 ELSE IsHex(c)
      radix  == IF base = 2 THEN "binary" ELSE IF base = 8 THEN "octal" ELSE "hexadecimal"
      dec    == DecValue(digits, base)
      intOK  == digits # <<>> /\ (\A k \in 1..Len(digits) : digitOK(digits[k])) /\ FitsI64(dec)
      sufMsg == Msg("invalid number suffix: %", suf)
      decMsg == Msg("try using a decimal number: %", [k \in 1..Len(dec) |-> dec[k] + 48] \o suf)
  IN  IF base = 10
      THEN LET numMsg == Msg("invalid floating point number: %", num) IN
           IF badExp THEN BadTok(i, e, numMsg, IF sufBad THEN <<sufMsg>> ELSE <<>>)
           ELSE IF sufBad THEN BadTok(i, e, sufMsg, <<>>)
           ELSE Tok(IF suf # <<>> THEN "Numeric" ELSE IF float THEN "Float" ELSE "Int", i, e)
      ELSE IF ~intOK
           THEN BadTok(i, e, Msg("invalid " \o radix \o " number: %", num), IF sufBad THEN <<sufMsg>> ELSE <<>>)
      ELSE IF suf # <<>>
           THEN BadTok(i, e, Msg(radix \o " numbers cannot have a suffix", <<>>),
                       <<IF sufBad THEN sufMsg ELSE decMsg>>)
      ELSE Tok("Int", i, e)

\* Position of the closing quote, or Len(T).
RECURSIVE StrEnd(_, _, _)
StrEnd(T, i, esc) ==
  IF i >= Len(T) \/ (T[i + 1] = 34 /\ ~esc) THEN i
  ELSE StrEnd(T, i + 1, T[i + 1] = 92 /\ ~esc)
StrTok(T, i) ==
  LET e == StrEnd(T, i + 1, FALSE) IN
  IF e < Len(T) THEN Tok("Str", i, e + 1) ELSE BadTok(i, e, Msg("unclosed string", <<>>), <<>>)

Op1 == [c \in {123, 125, 91, 93, 40, 41, 36, 44, 59, 58, 46, 43, 45, 8722, 42, 47, 61, 60, 62} |->
  CASE c = 123 -> "LeftBrace" [] c = 125 -> "RightBrace" [] c = 91 -> "LeftBracket"
    [] c = 93 -> "RightBracket" [] c = 40 -> "LeftParen" [] c = 41 -> "RightParen"
    [] c = 36 -> "Dollar" [] c = 44 -> "Comma" [] c = 59 -> "Semicolon" [] c = 58 -> "Colon"
    [] c = 46 -> "Dot" [] c = 43 -> "Plus" [] c \in {45, 8722} -> "Minus" [] c = 42 -> "Star"
    [] c = 47 -> "Slash" [] c = 61 -> "Eq" [] c = 60 -> "Lt" [] c = 62 -> "Gt"]
OpEq == [c \in {61, 33, 60, 62, 43, 45, 8722, 42, 47} |->
  CASE c = 61 -> "EqEq" [] c = 33 -> "ExclEq" [] c = 60 -> "LtEq" [] c = 62 -> "GtEq"
    [] c = 43 -> "PlusEq" [] c \in {45, 8722} -> "HyphEq" [] c = 42 -> "StarEq" [] c = 47 -> "SlashEq"]

CodeTok(T, i) ==
  LET c == T[i + 1]
      n == i + 1
  IN
  CASE c = 60 /\ n < Len(T) /\ IdContinue(T[n + 1]) -> LabelTok(T, i)
    [] AsciiDigit(c) -> NumberTok(T, i)
    [] c = 46 /\ n < Len(T) /\ AsciiDigit(T[n + 1]) -> NumberTok(T, i)
    [] c = 34 -> StrTok(T, i)
    [] c \in DOMAIN OpEq /\ Is(T, n, 61) -> Tok(OpEq[c], i, i + 2)
    [] c = 46 /\ Is(T, n, 46) -> Tok("Dots", i, i + 2)
    [] c = 61 /\ Is(T, n, 62) -> Tok("Arrow", i, i + 2)
    [] OTHER ->
       IF c \in DOMAIN Op1 THEN Tok(Op1[c], i, n)
       ELSE IF IdStart(c) THEN IdentTok(T, i)
       ELSE BadTok(i, n, Msg("the character `%` is not valid in code", <<c>>), <<>>)

(****************************** math tokens ********************************)

MathShorts == {
  <<45,62>>, <<45,62,62>>, <<45,45,62>>, <<58,61>>, <<58,58,61>>, <<33,61>>, <<46,46,46>>, <<91,124>>,
  <<60,61,61,62>>, <<60,45,45,62>>, <<60,45,45>>, <<60,45,60>>, <<60,45,62>>, <<60,60,45>>, <<60,60,60>>,
  <<60,61,62>>, <<60,61,61>>, <<60,126,126>>, <<60,61>>, <<60,60>>, <<60,45>>, <<60,126>>, <<62,45,62>>,
  <<62,62,62>>, <<61,61,62>>, <<61,62>>, <<61,58>>, <<62,61>>, <<62,62>>, <<124,45,62>>, <<124,61,62>>,
  <<124,93>>, <<124,124>>, <<126,126,62>>, <<126,62>>, <<42>>, <<45>>, <<126>>}
MathOp1 == [c \in {46, 44, 59, 41, 35, 95, 36, 47, 94, 39, 38, 8730, 8731, 8732} |->
  CASE c = 46 -> "Dot" [] c = 44 -> "Comma" [] c = 59 -> "Semicolon" [] c = 41 -> "RightParen" [] c = 35 -> "Hash"
    [] c = 95 -> "Underscore" [] c = 36 -> "Dollar" [] c = 47 -> "Slash" [] c = 94 -> "Hat" [] c = 39 -> "Prime"
    [] c = 38 -> "MathAlignPoint" [] OTHER -> "Root"]

MathIdContinue(c) == XidContinue(c) /\ c # 95
\* A name in math and the fields selected from it.
RECURSIVE MathFields(_, _, _, _)
MathFields(T, i, e, node) ==
  IF Is(T, e, 46) /\ e + 1 < Len(T) /\ XidStart(T[e + 2])
  THEN LET f == While(T, e + 1, MathIdContinue)
       IN  MathFields(T, i, f, Inner("FieldAccess", <<node, Leaf("Dot", 1), Leaf("Ident", f - e - 1)>>))
  ELSE [k |-> node.k, e |-> e, nl |-> FALSE, n |-> node]
MathIdentTok(T, i) ==
  LET e == While(T, i, MathIdContinue) IN MathFields(T, i, e, Leaf("MathIdent", e - i))

\* Numbers stay together, and so do characters with the marks that combine
\* with them (nothing combines with a control character).
MathTextTok(T, i) ==
  LET c == T[i + 1] IN
  IF Number(c)
  THEN LET j == While(T, i, Number)
           k == IF Is(T, j, 46) THEN While(T, j + 1, Number) ELSE j
       IN  Tok("MathText", i, IF k > j + 1 THEN k ELSE j)
  ELSE LET j == IF Control(c) THEN i + 1 ELSE While(T, i + 1, Combining)
       IN  Tok(IF j > i + 1 THEN "Text" ELSE "MathText", i, j)

MathTok(T, i) ==
  LET c == T[i + 1]
      S == {s \in MathShorts : s[1] = c /\ HasPrefix(T, i, s)}
  IN
  CASE c = 92 -> BackslashTok(T, i)
    [] c = 34 -> StrTok(T, i)
    [] S # {} -> Tok("MathShorthand", i, i + (CHOOSE x \in {Len(s) : s \in S} : \A s \in S : Len(s) <= x))
    [] c \in DOMAIN MathOp1 -> Tok(MathOp1[c], i, i + 1)
    [] XidStart(c) /\ i + 1 < Len(T) /\ MathIdContinue(T[i + 2]) -> MathIdentTok(T, i)
    [] OTHER -> MathTextTok(T, i)

(***************************************************************************)
Lex(T, i, mode) ==
  IF i >= Len(T) THEN Tok("End", i, i)
  ELSE LET c == T[i + 1] IN
    CASE IsSpace(c, mode) -> WhiteTok(T, i, mode)
      [] i = 0 /\ c = 35 /\ Is(T, 1, 33) -> Tok("Shebang", i, LineEnd(T, 2))
      [] c = 47 /\ Is(T, i + 1, 47) -> Tok("LineComment", i, LineEnd(T, i + 2))
      [] c = 47 /\ Is(T, i + 1, 42) -> Tok("BlockComment", i, CommentEnd(T, i + 2, 1, 95))
      [] c = 42 /\ Is(T, i + 1, 47) ->
           BadTok(i, i + 2, Msg("unexpected end of block comment", <<>>),
             <<Msg("consider escaping the `*` with a backslash or opening the block comment with `/*`", <<>>)>>)
      [] c = 96 /\ mode # Math -> RawTok(T, i)
      [] OTHER -> IF mode = Markup THEN MarkupTok(T, i) ELSE IF mode = Math THEN MathTok(T, i) ELSE CodeTok(T, i)

\* Compact form for comparing with the implementation.
RECURSIVE Out(_)
Out(x) == IF x.t = "L" THEN <<x.k, x.l>>
          ELSE IF x.t = "E" THEN <<"Error", x.l, x.m, x.h>>
          ELSE <<x.k, [i \in 1..Len(x.c) |-> Out(x.c[i])]>>

\* The whole text as tokens in one mode (lexer on its own, no parser).
RECURSIVE Tokens(_, _, _)
Tokens(T, i, mode) ==
  LET t == Lex(T, i, mode) IN IF t.k = "End" THEN <<>> ELSE <<t>> \o Tokens(T, t.e, mode)
=============================================================================
