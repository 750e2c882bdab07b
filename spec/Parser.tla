------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* Typst's markup, math and code grammar as a parser over the tokens of Lexer.   *)
(* Every operator takes a parser state and yields the next one:            *)
(*   T   the text           i   the lexer's position (end of the token)    *)
(*   md  lexing mode        nl  what a newline means here                  *)
(*   k   current token's kind ("End" where a newline ends the construct)   *)
(*   nd  its node           nt  how many trivia nodes precede it           *)
(*   w   newline info of that trivia: on, col (-1 unknown), pb (parbreak)  *)
(*   st  its start          pe  end of the previous token                  *)
(*   bal delimiters balanced so far (matters to incremental reparsing)     *)
(*   N   nodes built so far                                                *)
(* Re-reading a parenthesis is done by evaluating the operators again from *)
(* an earlier state, so the memo table of the implementation has no        *)
(* counterpart: it has to be unobservable.                                 *)
(***************************************************************************)
EXTENDS Lexer

(***************************** newline modes *******************************)
NlMode(m) == [m |-> m, c |-> 0]
NlContinue   == NlMode("continue")
NlStop       == NlMode("stop")
NlContextual == NlMode("contextual")
NlParBreak   == NlMode("parbreak")
NlColumn(c)  == [m |-> "column", c |-> c]

StopAt(nl, w, k) ==
  CASE nl.m = "continue"   -> FALSE
    [] nl.m = "stop"       -> TRUE
    [] nl.m = "contextual" -> k \notin {"Else", "Dot"}
    [] nl.m = "parbreak"   -> w.pb
    [] nl.m = "column"     -> w.col >= 0 /\ w.col <= nl.c

(******************************** tokens ***********************************)
RECURSIVE SkipTrivia(_, _, _, _, _, _, _)
SkipTrivia(T, i, md, N, nt, hn, pb) ==
  LET t == Lex(T, i, md) IN
  IF t.k \in Trivia
  THEN SkipTrivia(T, t.e, md, Append(N, t.n), nt + 1, hn \/ t.nl, pb \/ t.k = "Parbreak")
  ELSE [t |-> t, i |-> i, N |-> N, nt |-> nt, hn |-> hn, pb |-> pb]

Next_(p) ==
  LET r == SkipTrivia(p.T, p.i, p.md, p.N, 0, FALSE, FALSE)
      w == [on |-> r.hn, col |-> IF r.hn /\ p.md = Markup THEN Column(p.T, r.i) ELSE -1, pb |-> r.pb]
  IN  [p EXCEPT !.k = IF r.hn /\ StopAt(p.nl, w, r.t.k) THEN "End" ELSE r.t.k,
                !.nd = r.t.n, !.nt = r.nt, !.w = w, !.st = r.i, !.pe = p.i,
                !.i = r.t.e, !.N = r.N]

NewParser(T, off, md) ==
  Next_([T |-> T, i |-> off, md |-> md, nl |-> NlContinue, k |-> "End", nd |-> Leaf("End", 0),
         nt |-> 0, w |-> [on |-> FALSE, col |-> -1, pb |-> FALSE], st |-> off, pe |-> off,
         bal |-> TRUE, N |-> <<>>])

At(p, k)         == p.k = k
Direct(p, k)     == p.k = k /\ p.nt = 0
HadTrivia(p)     == p.nt > 0
HadNewline(p)    == p.w.on
Terminated(p)    == p.k \in Terminator
Marker(p)        == Len(p.N)
BeforeTrivia(p)  == Len(p.N) - p.nt
CurrentText(p)   == Slice(p.T, p.st, p.i)
CurrentColumn(p) == IF p.w.on /\ p.w.col >= 0 THEN p.w.col ELSE Column(p.T, p.st)

Eat(p)           == Next_([p EXCEPT !.N = Append(p.N, p.nd)])
EatIf(p, k)      == IF p.k = k THEN Eat(p) ELSE p
EatAs(p, k)      == Eat([p EXCEPT !.nd.k = k])
Flush(p)         == [p EXCEPT !.nt = 0, !.pe = p.st]
Wrap(p, from, k) ==
  LET to == BeforeTrivia(p)
      f  == IF from < to THEN from ELSE to
  IN  [p EXCEPT !.N = SubSeq(p.N, 1, f) \o <<Inner(k, SubSeq(p.N, f + 1, to))>>
                      \o SubSeq(p.N, to + 1, Len(p.N))]

(* Entering and leaving a newline mode / lexing mode around a construct.   *)
Enter(p, nl)      == [p EXCEPT !.nl = nl]
Leave(p, nl)      ==
  IF p.w.on /\ p.nl # nl
  THEN [p EXCEPT !.nl = nl, !.k = IF StopAt(nl, p.w, p.nd.k) THEN "End" ELSE p.nd.k]
  ELSE [p EXCEPT !.nl = nl]
EnterM(p, md, nl) == [p EXCEPT !.md = md, !.nl = nl]
LeaveM(p, md, nl) ==
  LET q == Leave(p, nl) IN
  IF p.md = md THEN q
  ELSE Next_([q EXCEPT !.md = md, !.i = q.pe, !.N = SubSeq(q.N, 1, Len(q.N) - q.nt)])

(******************************** errors ***********************************)
ToError(n, m)     == IF n.t = "E" THEN n ELSE Err(n.l, m, <<>>)
AddHint(n, h)     == IF n.t = "E" THEN [n EXCEPT !.h = Append(n.h, h)] ELSE n
ExpectedNode(n, thing) ==
  LET e == ToError(n, Msg("expected " \o thing \o ", found " \o KindName(n.k), <<>>)) IN
  IF n.k \in Keyword /\ thing \in {"identifier", "pattern"}
  THEN AddHint(e, Msg("keyword `" \o KeywordText[n.k] \o "` is not allowed as an identifier; try `"
                      \o KeywordText[n.k] \o "_` instead", <<>>))
  ELSE e
UnexpectedNode(n) == ToError(n, Msg("unexpected " \o KindName(n.k), <<>>))

AfterError(p) == BeforeTrivia(p) > 0 /\ p.N[BeforeTrivia(p)].t = "E"
ExpectedAt(p, m, thing) ==
  [p EXCEPT !.N = SubSeq(p.N, 1, m) \o <<Err(0, Msg("expected " \o thing, <<>>), <<>>)>>
                  \o SubSeq(p.N, m + 1, Len(p.N))]
Expected(p, thing) == IF AfterError(p) THEN p ELSE ExpectedAt(p, BeforeTrivia(p), thing)
Hint(p, h) ==
  LET m == BeforeTrivia(p) IN
  IF m = 0 THEN p ELSE [p EXCEPT !.N[m] = AddHint(@, Msg(h, <<>>))]

RECURSIVE TrimErrors(_)
TrimErrors(p) ==
  LET m == BeforeTrivia(p) IN
  IF m > 0 /\ p.N[m].t = "E" /\ p.N[m].l = 0
  THEN TrimErrors([p EXCEPT !.N = SubSeq(p.N, 1, m - 1) \o SubSeq(p.N, m + 1, Len(p.N))])
  ELSE p
Unbalance(p, k) == [p EXCEPT !.bal = @ /\ k \notin Grouping]
Unexpected(p) ==
  LET q == Unbalance(TrimErrors(p), p.k) IN Eat([q EXCEPT !.nd = UnexpectedNode(@)])
Expect(p, k) ==
  IF p.k = k THEN Eat(p)
  ELSE IF k = "Ident" /\ p.k \in Keyword
       THEN Eat([TrimErrors(p) EXCEPT !.nd = ExpectedNode(@, KindName(k))])
  ELSE Expected(Unbalance(p, k), KindName(k))
ExpectClose(p, open, k) ==
  IF p.k = k THEN Eat(p) ELSE [p EXCEPT !.N[open + 1] = ToError(@, Msg("unclosed delimiter", <<>>))]
SetNode(p, m, n) == [p EXCEPT !.N[m + 1] = n]

(***************************************************************************)
(* Value of the string literal at positions i..e-1 (quotes included).      *)
(***************************************************************************)
RECURSIVE StrChars(_, _, _)
StrChars(T, i, e) ==
  IF i >= e THEN <<>>
  ELSE IF T[i + 1] # 92 THEN <<T[i + 1]>> \o StrChars(T, i + 1, e)
  ELSE IF i + 1 >= e THEN <<92>>
  ELSE LET c == T[i + 2] IN
    CASE c \in {92, 34} -> <<c>> \o StrChars(T, i + 2, e)
      [] c = 110 -> <<10>> \o StrChars(T, i + 2, e)
      [] c = 114 -> <<13>> \o StrChars(T, i + 2, e)
      [] c = 116 -> <<9>>  \o StrChars(T, i + 2, e)
      [] c = 117 /\ i + 2 < e /\ T[i + 3] = 123 ->
           LET S == SubSeq(T, 1, e)
               j == While(S, i + 3, IsHex)
               f == IF Is(S, j, 125) THEN j + 1 ELSE j
           IN  IF ValidScalarHex(T, i + 3, j) THEN <<HexNum(T, i + 3, j, 0)>> \o StrChars(T, f, e)
               ELSE Slice(T, i, f) \o StrChars(T, f, e)
      [] OTHER -> <<92, c>> \o StrChars(T, i + 2, e)
StrValue(T, i, e) == StrChars(T, i + 1, e - 1)

(***************************************************************************)
(* Markup                                                                  *)
(***************************************************************************)
RECURSIVE MarkupExpr(_, _, _), MarkupLoop(_, _, _, _), EmbeddedCode(_),
          CodeLoop(_, _), CodePrec(_, _, _), CodeTail(_, _, _, _), Primary(_, _),
          Conditional(_), ShowRule(_), ImportLoop(_), DotIdents(_), SetPath(_, _),
          GroupLoop(_, _), ArgLoop(_, _), ContentArgs(_), ParamLoop(_, _, _),
          Pattern(_, _, _, _), DestructLoop(_, _, _, _, _, _),
          MathLoop(_, _, _), MathPrec(_, _, _), MathTail(_, _, _, _, _), DelimLoop(_, _, _),
          MathArgLoop(_, _), Equation(_)

Markup_(p, atStart, wrapTrivia, stop) ==
  LET m == IF wrapTrivia THEN BeforeTrivia(p) ELSE Marker(p)
      q == MarkupLoop(p, atStart \/ HadNewline(p), 0, stop)
  IN  Wrap(IF wrapTrivia THEN Flush(q) ELSE q, m, "Markup")

MarkupLoop(p, atStart, nest, stop) ==
  IF p.k \in stop /\ ~(nest > 0 /\ p.k = "RightBracket") THEN p
  ELSE LET r == MarkupExpr(p, atStart, nest) IN MarkupLoop(r.p, HadNewline(r.p), r.n, stop)

ContentBlock(p) ==
  LET m == Marker(p)
      a == Eat(EnterM(p, Markup, NlContinue))
      b == Markup_(a, TRUE, TRUE, {"RightBracket", "End"})
      c == ExpectClose(b, m, "RightBracket")
  IN  Wrap(LeaveM(c, p.md, p.nl), m, "ContentBlock")

Delimited(p, delim, k) ==      \* strong and emphasis
  LET m == Marker(p)
      a == Eat(Enter(p, NlParBreak))
      b == Markup_(a, FALSE, TRUE, {delim, "RightBracket", "End"})
      c == ExpectClose(b, m, delim)
  IN  Leave(Wrap(c, m, k), p.nl)
Heading(p) ==
  LET m == Marker(p)
      a == Eat(Enter(p, NlStop))
      b == Markup_(a, FALSE, FALSE, {"Label", "RightBracket", "End"})
  IN  Leave(Wrap(b, m, "Heading"), p.nl)
Item(p, k) ==
  LET m == Marker(p)
      a == Eat(Enter(p, NlColumn(CurrentColumn(p))))
      b == Markup_(a, TRUE, FALSE, {"RightBracket", "End"})
  IN  Leave(Wrap(b, m, k), p.nl)
TermItem(p) ==
  LET m  == Marker(p)
      nl == NlColumn(CurrentColumn(p))
      a  == Eat(Enter(p, NlStop))
      b  == Markup_(a, FALSE, FALSE, {"Colon", "RightBracket", "End"})
      c  == Expect(Leave(b, nl), "Colon")
      d  == Markup_(c, TRUE, FALSE, {"RightBracket", "End"})
  IN  Leave(Wrap(d, m, "TermItem"), p.nl)
Reference(p) ==
  LET m == Marker(p)
      a == Eat(p)
  IN  Wrap(IF Direct(a, "LeftBracket") THEN ContentBlock(a) ELSE a, m, "Ref")

\* One markup expression; n counts the brackets that are open as plain text.
MarkupExpr(p, atStart, n) ==
  CASE p.k = "LeftBracket" -> [p |-> EatAs(p, "Text"), n |-> n + 1]
    [] p.k = "RightBracket" ->
         IF n > 0 THEN [p |-> EatAs(p, "Text"), n |-> n - 1]
         ELSE [p |-> Hint(Unexpected(p), "try using a backslash escape: \\]"), n |-> n]
    [] OTHER -> [n |-> n, p |->
         CASE p.k \in {"Shebang", "Text", "Linebreak", "Escape", "Shorthand", "SmartQuote",
                       "Link", "Label", "Raw"} -> Eat(p)
           [] p.k = "Hash"          -> EmbeddedCode(p)
           [] p.k = "Dollar"        -> Equation(p)
           [] p.k = "Star"          -> Delimited(p, "Star", "Strong")
           [] p.k = "Underscore"    -> Delimited(p, "Underscore", "Emph")
           [] p.k = "HeadingMarker" -> IF atStart THEN Heading(p) ELSE EatAs(p, "Text")
           [] p.k = "ListMarker"    -> IF atStart THEN Item(p, "ListItem") ELSE EatAs(p, "Text")
           [] p.k = "EnumMarker"    -> IF atStart THEN Item(p, "EnumItem") ELSE EatAs(p, "Text")
           [] p.k = "TermMarker"    -> IF atStart THEN TermItem(p) ELSE EatAs(p, "Text")
           [] p.k = "RefMarker"     -> Reference(p)
           [] p.k = "Colon"         -> EatAs(p, "Text")
           [] OTHER                 -> Unexpected(p)]

(***************************************************************************)
(* Math                                                                    *)
(***************************************************************************)
MathEnds == {"End", "Dollar"}

\* Class of a piece of text: that of its only character, or of a shorthand.
ClassOf(w) ==
  CASE w = <<91, 124>> -> "Opening"
    [] w = <<124, 93>> -> "Closing"
    [] Len(w) = 1 /\ Opening(w[1]) -> "Opening"
    [] Len(w) = 1 /\ Closing(w[1]) -> "Closing"
    [] OTHER -> ""
Opens(p)  == ClassOf(CurrentText(p)) = "Opening"
Closes(p) == ClassOf(CurrentText(p)) = "Closing"

\* Expressions up to a token of `stop`; n counts them.
MathLoop(p, stop, n) ==
  IF p.k \in stop THEN [p |-> p, n |-> n]
  ELSE IF p.k \in MathStart THEN MathLoop(MathPrec(p, 0, "End"), stop, n + 1)
  ELSE MathLoop(Unexpected(p), stop, n)

Equation(p) ==
  LET m == Marker(p)
      a == Eat(EnterM(p, Math, NlContinue))
      b == Wrap(MathLoop(a, MathEnds, 0).p, Marker(a), "Math")
      c == ExpectClose(b, m, "Dollar")
  IN  Wrap(LeaveM(c, p.md, p.nl), m, "Equation")

\* Matching delimiters.
DelimLoop(p, m, m2) ==
  LET w == Wrap(p, m2, "Math") IN
  IF p.k \in MathEnds THEN Wrap(p, m, "Math")
  ELSE IF Closes(p) THEN Wrap(IF w.k = "RightParen" THEN EatAs(w, "MathText") ELSE Eat(w), m, "MathDelimited")
  ELSE DelimLoop(IF p.k \in MathStart THEN MathPrec(p, 0, "End") ELSE Unexpected(p), m, m2)
MathDelimited(p) == LET a == Eat(p) IN DelimLoop(a, Marker(p), Marker(a))

\* Parentheses that only group (operands of fractions, scripts, radicands)
\* do not count as delimiters.
Unparen(p, m) ==
  LET x == p.N[m + 1]
      s == p.st - SumLen(SubSeq(p.N, m + 1, Len(p.N)))
      z == Len(x.c)
  IN  IF m < Len(p.N) /\ x.k = "MathDelimited" /\ x.c[1].l = 1 /\ x.c[z].l = 1
         /\ p.T[s + 1] = 40 /\ p.T[s + x.l] = 41
      THEN [p EXCEPT !.N[m + 1] = [x EXCEPT !.k = "Math", !.c[1].k = "LeftParen", !.c[z].k = "RightParen"]]
      ELSE p

RECURSIVE PrimeRun(_), PrimeGroups(_)
PrimeRun(p) == IF Direct(p, "Prime") THEN PrimeRun(Eat(p)) ELSE p
PrimeGroup(p) == Wrap(PrimeRun(Eat(p)), Marker(p), "MathPrimes")
PrimeGroups(p) == IF p.k = "Prime" THEN PrimeGroups(PrimeGroup(p)) ELSE p

\* Arguments of a function in math.  g: whether the last was positional,
\* whether there are arrays, where the current one begins, names seen.
MathArg(p, seen) ==
  LET m  == Marker(p)
      s  == p.st
      spread == /\ p.k = "Dot" /\ HasPrefix(p.T, s, <<46, 46>>)
                /\ ~SpaceOrEnd(p.T, s + 2) /\ ~Is(p.T, s + 2, 46)
      e  == While(p.T, s, IdContinue)
      named == /\ p.k \in {"MathText", "MathIdent", "Underscore"} /\ IdStart(p.T[s + 1])
               /\ Is(p.T, e, 58) /\ ~Is(p.T, e + 1, 61) /\ ~HasPrefix(p.T, e, <<58, 58, 61>>)
      name == Slice(p.T, s, e)
      id == IF name = <<95>> THEN Err(1, Msg("expected identifier, found underscore", <<>>), <<>>)
            ELSE Leaf("Ident", e - s)
      a  == EatAs(Eat([p EXCEPT !.nd = id, !.i = e]), "Colon")
      b  == IF ~named THEN p
            ELSE IF name \in seen THEN SetNode(a, m, ToError(a.N[m + 1], Msg("duplicate argument: %", name)))
            ELSE a
      r  == MathLoop(b, {"End", "Dollar", "Comma", "Semicolon", "RightParen"}, 0)
      c  == IF r.n > 0 THEN r.p ELSE Flush(IF named THEN Expected(r.p, "expression") ELSE r.p)
      d  == IF r.n = 1 THEN c ELSE Wrap(c, Marker(b), "Math")
  IN  IF spread
      THEN [p |-> Wrap(MathPrec(Eat([p EXCEPT !.nd = Leaf("Dots", 2), !.i = s + 2]), 0, "End"), m, "Spread"),
            pos |-> TRUE, seen |-> seen]
      ELSE [p |-> IF named THEN Wrap(d, m, "Named") ELSE d, pos |-> ~named,
            seen |-> IF named THEN seen \cup {name} ELSE seen]
MathArgLoop(p, g) ==
  IF p.k \in MathEnds \cup {"RightParen"} THEN [p |-> p, g |-> g]
  ELSE
    LET r  == MathArg(p, g.seen)
        q  == r.p
        a  == Eat(q)
        b  == Eat(Wrap(q, IF r.pos THEN g.from ELSE Marker(q), "Array"))
        g2 == [g EXCEPT !.seen = r.seen, !.pos = r.pos]
    IN  IF q.k = "Comma" THEN MathArgLoop(a, IF r.pos THEN g2 ELSE [g2 EXCEPT !.from = Marker(a)])
        ELSE IF q.k = "Semicolon" THEN MathArgLoop(b, [g2 EXCEPT !.from = Marker(b), !.arrays = TRUE])
        ELSE MathArgLoop(IF q.k \in MathEnds \cup {"RightParen"} THEN q ELSE Expected(q, "comma or semicolon"), g2)
MathArgs(p) ==
  LET m == Marker(p)
      a == EatAs(p, "LeftParen")
      r == MathArgLoop(a, [pos |-> TRUE, arrays |-> FALSE, from |-> Marker(a), seen |-> {}])
      b == IF r.g.from # Marker(r.p) /\ r.g.arrays /\ r.g.pos THEN Wrap(r.p, r.g.from, "Array") ELSE r.p
  IN  Wrap(ExpectClose(b, m, "RightParen"), m, "Args")

\* The beginning of an expression; c: whether delimiters may directly follow.
MathHead(p, m, min, stop) ==
  LET a == Eat(p)
      b == MathPrec(a, 2, stop)
      r(q, c) == [p |-> q, c |-> c]
  IN
  CASE p.k = "Hash" -> r(EmbeddedCode(p), FALSE)
    [] p.k \in {"MathIdent", "FieldAccess"} ->
         IF min < 3 /\ Direct(a, "MathText") /\ CurrentText(a) = <<40>>
         THEN r(Wrap(MathArgs(a), m, "FuncCall"), FALSE) ELSE r(a, TRUE)
    [] p.k \in {"Dot", "Comma", "Semicolon", "RightParen"} -> r(EatAs(p, "MathText"), FALSE)
    [] p.k \in {"Text", "MathText", "MathShorthand"} ->
         r(IF Opens(p) THEN MathDelimited(p) ELSE a,
           LET w == CurrentText(p) IN \A i \in DOMAIN w : Alphabetic(w[i]))
    [] p.k \in {"Linebreak", "MathAlignPoint"} -> r(a, FALSE)
    [] p.k \in {"Escape", "Str"} -> r(a, TRUE)
    [] p.k = "Root" -> r(IF min < 3 THEN Wrap(Unparen(b, Marker(a)), m, "MathRoot") ELSE p, FALSE)
    [] p.k = "Prime" -> r(PrimeGroups(p), TRUE)
    [] OTHER -> r(Expected(p, "expression"), FALSE)

MathPrec(p, min, stop) ==
  LET m == Marker(p)
      h == MathHead(p, m, min, stop)
      q == IF h.c /\ min < 3 /\ ~HadTrivia(h.p) /\ Opens(h.p) THEN Wrap(MathDelimited(h.p), m, "Math") ELSE h.p
  IN  MathTail(q, m, min, stop, FALSE)

\* Factorials, primes, scripts and fractions; primed: whether primes await
\* being attached.
MathTail(p, m, min, stop, primed) ==
  LET pr  == PrimeGroup(p)
      att == Wrap(p, m, "MathAttach")
      frac == p.k = "Slash"
      prec == IF frac THEN 1 ELSE 3
      next == IF frac THEN 2 ELSE 3
      a == IF primed /\ frac THEN att ELSE p
      b == Eat(IF frac THEN Unparen(a, m) ELSE a)
      c == MathPrec(b, next, CASE p.k = "Underscore" -> "Hat" [] p.k = "Hat" -> "Underscore" [] OTHER -> "End")
      d == Unparen(c, Marker(b))
      e == Eat(d)
      f == IF d.k \in {"Underscore", "Hat"} THEN Unparen(MathPrec(e, next, "End"), Marker(e)) ELSE d
  IN
  IF p.k \in {"End", stop} THEN p
  ELSE IF Direct(p, "MathText") /\ CurrentText(p) = <<33>>
  THEN MathTail(Wrap(Eat(p), m, "Math"), m, min, stop, primed)
  ELSE IF Direct(p, "Prime")
  THEN MathTail(IF pr.k = stop THEN Wrap(pr, m, "MathAttach") ELSE pr, m, min, stop, TRUE)
  ELSE IF p.k \notin {"Underscore", "Hat", "Slash"} THEN IF primed THEN att ELSE p
  ELSE IF prec < min THEN a
  ELSE MathTail(Wrap(f, m, IF frac THEN "MathFrac" ELSE "MathAttach"), m, min, stop, primed)

(***************************************************************************)
(* Code                                                                    *)
(***************************************************************************)
Expr(p) == CodePrec(p, FALSE, 0)

EmbeddedCode(p) ==
  LET a == Eat(EnterM(p, Code, NlStop))
      stmt == a.k \in StmtStart
      b == CodePrec(a, TRUE, 0)
      c == IF a.k \in AtomicExprStart THEN b ELSE Unexpected(b)
      semi == (stmt \/ Direct(c, "Semicolon")) /\ c.k = "Semicolon"
      d == IF semi THEN Eat(c) ELSE c
      e == IF stmt /\ ~semi /\ d.k \notin {"End", "RightBracket"}
           THEN Expected(d, "semicolon or line break") ELSE d
  IN  LeaveM(IF HadTrivia(a) \/ a.k = "End" THEN Expected(a, "expression") ELSE e, p.md, p.nl)

CodeLoop(p, stop) ==
  IF p.k \in stop THEN p
  ELSE LET a == Enter(p, NlContextual)
           b == Expr(a)
           c == Expected(b, "semicolon or line break")
           d == IF a.k \notin ExprStart THEN Unexpected(a)
                ELSE IF b.k \in stop THEN b
                ELSE IF b.k = "Semicolon" THEN Eat(b)
                ELSE IF c.k = "Label"
                     THEN Hint(Hint(c, "labels can only be applied in markup mode"),
                               "try wrapping your code in a markup block (`[ ]`)")
                ELSE c
       IN  CodeLoop(Leave(d, p.nl), stop)

CodeBlock(p) ==
  LET m == Marker(p)
      a == Eat(EnterM(p, Code, NlContinue))
      b == Wrap(CodeLoop(a, {"RightBrace", "RightBracket", "RightParen", "End"}), Marker(a), "Code")
      c == ExpectClose(b, m, "RightBrace")
  IN  Wrap(LeaveM(c, p.md, p.nl), m, "CodeBlock")
Block_(p) == IF p.k = "LeftBracket" THEN ContentBlock(p)
             ELSE IF p.k = "LeftBrace" THEN CodeBlock(p) ELSE Expected(p, "block")

\* Argument list: (...)[...][...]
Args(p0) ==
  LET bad == ~Direct(p0, "LeftParen") /\ ~Direct(p0, "LeftBracket")
      e == Expected(p0, "argument list")
      p == IF ~bad THEN p0
           ELSE IF e.k \in {"LeftParen", "LeftBracket"}
                THEN Hint(e, "there may not be any spaces before the argument list") ELSE e
      m == Marker(p)
      a == Eat(Enter(p, NlContinue))
      b == ExpectClose(ArgLoop(a, {}), m, "RightParen")
      c == IF p.k = "LeftParen" THEN Leave(b, p.nl) ELSE p
  IN  Wrap(ContentArgs(c), m, "Args")
ContentArgs(p) == IF Direct(p, "LeftBracket") THEN ContentArgs(ContentBlock(p)) ELSE p
ArgLoop(p, seen) ==
  IF Terminated(p) THEN p
  ELSE IF p.k \notin ItemStart THEN ArgLoop(Unexpected(p), seen)
  ELSE
    LET m     == Marker(p)
        name  == CurrentText(p)
        spread == Wrap(Expr(Eat(p)), m, "Spread")
        a     == Expr(p)
        named == a.k = "Colon"
        b     == Eat(a)
        atExpr == p.k \in ExprStart
        isId  == b.N[m + 1].k = "Ident"
        c     == IF ~atExpr THEN b
                 ELSE IF ~isId THEN SetNode(b, m, ExpectedNode(b.N[m + 1], "identifier"))
                 ELSE IF name \in seen
                      THEN SetNode(b, m, ToError(b.N[m + 1], Msg("duplicate argument: %", name)))
                 ELSE b
        d     == IF p.k = "Dots" THEN spread
                 ELSE IF named THEN Wrap(Expr(c), m, "Named") ELSE a
        seen2 == IF p.k # "Dots" /\ named /\ atExpr /\ isId THEN seen \cup {name} ELSE seen
    IN  ArgLoop(IF Terminated(d) THEN d ELSE Expect(d, "Comma"), seen2)

CodePrec(p, atomic, min) ==
  LET m == Marker(p) IN
  CodeTail(IF ~atomic /\ p.k \in UnaryOps
           THEN Wrap(CodePrec(Eat(p), FALSE, UnaryPrec(p.k)), m, "Unary")
           ELSE Primary(p, atomic), m, atomic, min)

CodeTail(p, m, atomic, min) ==
  IF Direct(p, "LeftParen") \/ Direct(p, "LeftBracket")
  THEN CodeTail(Wrap(Args(p), m, "FuncCall"), m, atomic, min)
  ELSE IF atomic /\ ~(Direct(p, "Dot") /\ Lex(p.T, p.i, p.md).k = "Ident") THEN p
  ELSE IF p.k = "Dot" THEN CodeTail(Wrap(Expect(Eat(p), "Ident"), m, "FieldAccess"), m, atomic, min)
  ELSE IF p.k \in BinaryOps
  THEN IF BinaryPrec(p.k) < min THEN p
       ELSE CodeTail(Wrap(CodePrec(Eat(p), FALSE,
                                   IF RightAssoc(p.k) THEN BinaryPrec(p.k) ELSE BinaryPrec(p.k) + 1),
                          m, "Binary"), m, atomic, min)
  ELSE IF p.k = "Not" /\ min <= NotInPrec
  THEN LET a == Eat(p) IN
       IF a.k # "In" THEN Expected(a, "keyword `in`")
       ELSE CodeTail(Wrap(CodePrec(Eat(a), FALSE, NotInPrec + 1), m, "Binary"), m, atomic, min)
  ELSE p

(* Closures, parentheses *)
Params(p) ==
  LET m == Marker(p)
      a == ParamLoop(Eat(Enter(p, NlContinue)), {}, FALSE)
  IN  Wrap(Leave(ExpectClose(a, m, "RightParen"), p.nl), m, "Params")

PatternLeaf_(p, reassign, seen, dupe) ==
  IF p.k \in Keyword THEN [p |-> Eat([p EXCEPT !.nd = ExpectedNode(@, "pattern")]), s |-> seen]
  ELSE IF p.k \notin PatternLeaf THEN [p |-> Expected(p, "pattern"), s |-> seen]
  ELSE LET m == Marker(p)
           name == CurrentText(p)
           a == CodePrec(p, TRUE, 0)
           n == a.N[m + 1]
       IN  IF reassign THEN [p |-> a, s |-> seen]
           ELSE IF n.k # "Ident" THEN [p |-> SetNode(a, m, ExpectedNode(n, "pattern")), s |-> seen]
           ELSE IF name \in seen
           THEN [p |-> SetNode(a, m, ToError(n, Msg("duplicate " \o dupe \o ": %", name))), s |-> seen]
           ELSE [p |-> a, s |-> seen \cup {name}]

\* ..name in a parameter list or pattern; sink tells whether one came before
SpreadPattern(p, reassign, seen, dupe, sink, what) ==
  LET m == Marker(p)
      a == Eat(p)
      r == IF a.k \in PatternLeaf THEN PatternLeaf_(a, reassign, seen, dupe) ELSE [p |-> a, s |-> seen]
      b == Wrap(r.p, m, "Spread")
  IN  [s |-> r.s,
       p |-> IF sink THEN SetNode(b, m, ToError(b.N[m + 1], Msg("only one " \o what \o " sink is allowed", <<>>)))
             ELSE b]

ParamLoop(p, seen, sink) ==
  IF Terminated(p) THEN p
  ELSE IF p.k \notin PatItemStart THEN ParamLoop(Unexpected(p), seen, sink)
  ELSE
    LET m == Marker(p)
        r == IF p.k = "Dots" THEN SpreadPattern(p, FALSE, seen, "parameter", sink, "argument")
             ELSE Pattern(p, FALSE, seen, "parameter")
        a == r.p
        b == Eat(a)
        c == IF p.k \in PatternStart /\ b.N[m + 1].k # "Ident"
             THEN SetNode(b, m, ExpectedNode(b.N[m + 1], "identifier")) ELSE b
        d == IF p.k # "Dots" /\ a.k = "Colon" THEN Wrap(Expr(c), m, "Named") ELSE a
    IN  ParamLoop(IF Terminated(d) THEN d ELSE Expect(d, "Comma"), r.s, sink \/ p.k = "Dots")

Destructuring(p, reassign, seen) ==
  LET m == Marker(p)
      r == DestructLoop(Eat(Enter(p, NlContinue)), reassign, seen, TRUE, FALSE, 0)
      a == Leave(ExpectClose(r.p, m, "RightParen"), p.nl)
  IN  [s |-> r.s,
       p |-> Wrap(a, m, IF r.just /\ r.n = 1 /\ ~r.sink THEN "Parenthesized" ELSE "Destructuring")]

Pattern(p, reassign, seen, dupe) ==
  IF p.k = "Underscore" THEN [p |-> Eat(p), s |-> seen]
  ELSE IF p.k = "LeftParen" THEN Destructuring(p, reassign, seen)
  ELSE PatternLeaf_(p, reassign, seen, dupe)

DestructLoop(p, reassign, seen, just, sink, n) ==
  IF Terminated(p) THEN [p |-> p, s |-> seen, just |-> just, sink |-> sink, n |-> n]
  ELSE IF p.k \notin PatItemStart THEN DestructLoop(Unexpected(p), reassign, seen, just, sink, n)
  ELSE
    LET m == Marker(p)
        key == p.k = "Ident" /\ Eat(p).k = "Colon"
        r == IF p.k = "Dots" THEN SpreadPattern(p, reassign, seen, "binding", sink, "destructuring")
             ELSE IF key THEN [p |-> Eat(p), s |-> seen]
             ELSE Pattern(p, reassign, seen, "binding")
        named == p.k # "Dots" /\ r.p.k = "Colon"
        b == Eat(r.p)
        c == IF p.k \in PatternStart /\ b.N[m + 1].k # "Ident"
             THEN SetNode(b, m, ExpectedNode(b.N[m + 1], "identifier")) ELSE b
        v == Pattern(c, reassign, r.s, "binding")
        d == IF named THEN Wrap(v.p, m, "Named") ELSE r.p
        e == IF Terminated(d) THEN d ELSE Expect(d, "Comma")
    IN  DestructLoop(e, reassign, IF named THEN v.s ELSE r.s,
                     just /\ ~named /\ ~(~Terminated(d) /\ d.k = "Comma"),
                     sink \/ p.k = "Dots", n + 1)

\* Group items.  g: n count, just (may still be plain parentheses),
\* kind ("" unknown), seen keys.
GroupLoop(p, g) ==
  IF Terminated(p) THEN [p |-> p, g |-> g]
  ELSE IF p.k \notin ItemStart THEN GroupLoop(Unexpected(p), g)
  ELSE
    LET m == Marker(p)
        spread == p.k = "Dots"
        a == IF spread THEN Wrap(Expr(Eat(p)), m, "Spread") ELSE Expr(p)
        pair == ~spread /\ a.k = "Colon"
        b == Expr(Eat(a))
        kn == b.N[m + 1]
        haskey == kn.k \in {"Ident", "Str"}
        key == IF kn.k = "Ident" THEN Slice(p.T, p.st, p.st + kn.l) ELSE StrValue(p.T, p.st, p.st + kn.l)
        c == IF haskey /\ key \in g.seen
             THEN SetNode(b, m, ToError(kn, Msg("duplicate key: %", key))) ELSE b
        d == Wrap(c, m, IF kn.k = "Ident" THEN "Named" ELSE "Keyed")
        e == IF spread THEN a
             ELSE IF pair
             THEN IF g.kind = "Array" THEN SetNode(d, m, ExpectedNode(d.N[m + 1], "expression")) ELSE d
             ELSE IF g.kind = "Dict"
             THEN SetNode(a, m, ExpectedNode(a.N[m + 1], "named or keyed pair")) ELSE a
        f == IF Terminated(e) THEN e ELSE Expect(e, "Comma")
        g2 == [n |-> g.n + 1,
               just |-> g.just /\ ~spread /\ ~pair /\ ~(~Terminated(e) /\ e.k = "Comma"),
               kind |-> IF spread THEN g.kind
                        ELSE IF pair THEN IF g.kind = "Array" THEN "Array" ELSE "Dict"
                        ELSE IF g.kind = "Dict" THEN "Dict" ELSE "Array",
               seen |-> IF pair /\ haskey THEN g.seen \cup {key} ELSE g.seen]
    IN  GroupLoop(f, g2)
\* (expr), array or dictionary: [p, kind]
Group(p) ==
  LET m == Marker(p)
      a == Eat(Enter(p, NlContinue))
      g0 == [n |-> 0, just |-> TRUE, kind |-> IF a.k = "Colon" THEN "Dict" ELSE "", seen |-> {}]
      r == GroupLoop(EatIf(a, "Colon"), g0)
      b == Leave(ExpectClose(r.p, m, "RightParen"), p.nl)
      kind == IF r.g.just /\ r.g.n = 1 THEN "Parenthesized"
              ELSE IF r.g.kind = "" THEN "Array" ELSE r.g.kind
  IN  [p |-> Wrap(b, m, kind), kind |-> kind]

ExprWithParen(p, atomic) ==
  LET m == Marker(p)
      r == Group(p)
      q == [p EXCEPT !.bal = r.p.bal]     \* start over, as something else
      a == Params(q)
      b == Destructuring(q, TRUE, {}).p
  IN  IF atomic THEN r.p
      ELSE IF r.p.k = "Arrow"
      THEN IF a.k # "Arrow" THEN Expect(a, "Arrow") ELSE Wrap(Expr(Eat(a)), m, "Closure")
      ELSE IF r.p.k = "Eq" /\ r.kind # "Parenthesized"
      THEN IF b.k # "Eq" THEN Expect(b, "Eq") ELSE Wrap(Expr(Eat(b)), m, "DestructAssignment")
      ELSE r.p

(* Keyword constructs *)
LetBinding(p) ==
  LET m == Marker(p)
      a == Eat(p)
      m2 == Marker(a)
      id == a.k = "Ident"
      a2 == Eat(a)
      closure == id /\ Direct(a2, "LeftParen")
      b == IF closure THEN Params(a2) ELSE IF id THEN a2 ELSE Pattern(a, FALSE, {}, "binding").p
      c == IF b.k = "Eq" THEN Expr(Eat(b))
           ELSE IF id /\ ~closure THEN b ELSE Expect(b, "Eq")
      d == IF closure THEN Wrap(c, m2, "Closure") ELSE c
  IN  Wrap(d, m, "LetBinding")

SetPath(p, m) == IF p.k = "Dot" THEN SetPath(Wrap(Expect(Eat(p), "Ident"), m, "FieldAccess"), m) ELSE p
SetRule(p) ==
  LET m == Marker(p)
      a == Eat(p)
      b == Args(SetPath(Expect(a, "Ident"), Marker(a)))
      c == IF b.k = "If" THEN Expr(Eat(b)) ELSE b
  IN  Wrap(c, m, "SetRule")

ShowRule(p) ==
  LET m == Marker(p)
      a == Eat(p)
      m2 == BeforeTrivia(a)
      b == IF a.k = "Colon" THEN a ELSE Expr(a)
      c == IF b.k = "Colon" THEN Expr(Eat(b)) ELSE ExpectedAt(b, m2, "colon")
  IN  Wrap(c, m, "ShowRule")

Contextual(p, atomic) == Wrap(CodePrec(Eat(p), atomic, 0), Marker(p), "Contextual")

Conditional(p) ==
  LET a == Block_(Expr(Eat(p)))
      b == Eat(a)
      c == IF a.k # "Else" THEN a ELSE IF b.k = "If" THEN Conditional(b) ELSE Block_(b)
  IN  Wrap(c, Marker(p), "Conditional")

WhileLoop(p) == Wrap(Block_(Expr(Eat(p))), Marker(p), "WhileLoop")

ForLoop(p) ==
  LET r == Pattern(Eat(p), FALSE, {}, "binding")
      a == r.p
      b == Eat([a EXCEPT !.nd = AddHint(UnexpectedNode(@),
                  Msg("destructuring patterns must be wrapped in parentheses", <<>>))])
      c == IF a.k # "Comma" THEN a
           ELSE IF b.k \in PatternStart THEN Pattern(b, FALSE, r.s, "binding").p ELSE b
  IN  Wrap(Block_(Expr(Expect(c, "In"))), Marker(p), "ForLoop")

DotIdents(p) == IF p.k = "Dot" THEN DotIdents(Expect(Eat(p), "Ident")) ELSE p
ImportLoop(p) ==
  IF Terminated(p) THEN p
  ELSE LET m == Marker(p)
           a == IF p.k = "Ident" THEN Eat(p) ELSE Unexpected(p)
           b == Wrap(DotIdents(a), m, "ImportItemPath")
           c == IF b.k = "As" THEN Wrap(Expect(Eat(b), "Ident"), m, "RenamedImportItem") ELSE b
       IN  ImportLoop(IF Terminated(c) THEN c ELSE Expect(c, "Comma"))
ImportItems(p) == Wrap(ImportLoop(p), Marker(p), "ImportItems")
ModuleImport(p) ==
  LET a == Expr(Eat(p))
      b == IF a.k = "As" THEN Expect(Eat(a), "Ident") ELSE a
      c == Eat(b)
      d == Eat(Enter(c, NlContinue))
      e == IF b.k # "Colon" THEN b
           ELSE IF c.k = "LeftParen"
                THEN Leave(ExpectClose(ImportItems(d), Marker(c), "RightParen"), c.nl)
           ELSE IF c.k = "Star" THEN Eat(c) ELSE ImportItems(c)
  IN  Wrap(e, Marker(p), "ModuleImport")

FuncReturn(p) ==
  LET a == Eat(p) IN Wrap(IF a.k \in ExprStart THEN Expr(a) ELSE a, Marker(p), "FuncReturn")

Primary(p, atomic) ==
  LET m == Marker(p)
      a == Eat(p)
      closure(q) == Wrap(Expr(Eat(Wrap(q, m, "Params"))), m, "Closure")
  IN
  CASE p.k = "Ident" -> IF ~atomic /\ a.k = "Arrow" THEN closure(a) ELSE a
    [] p.k = "Underscore" ->
         IF atomic THEN Expected(p, "expression")
         ELSE IF a.k = "Arrow" THEN closure(a)
         ELSE IF a.k = "Eq" THEN Wrap(Expr(Eat(a)), m, "DestructAssignment")
         ELSE SetNode(a, m, ExpectedNode(a.N[m + 1], "expression"))
    [] p.k = "LeftBrace"   -> CodeBlock(p)
    [] p.k = "LeftBracket" -> ContentBlock(p)
    [] p.k = "LeftParen"   -> ExprWithParen(p, atomic)
    [] p.k = "Dollar"      -> Equation(p)
    [] p.k = "Let"      -> LetBinding(p)
    [] p.k = "Set"      -> SetRule(p)
    [] p.k = "Show"     -> ShowRule(p)
    [] p.k = "Context"  -> Contextual(p, atomic)
    [] p.k = "If"       -> Conditional(p)
    [] p.k = "While"    -> WhileLoop(p)
    [] p.k = "For"      -> ForLoop(p)
    [] p.k = "Import"   -> ModuleImport(p)
    [] p.k = "Include"  -> Wrap(Expr(a), m, "ModuleInclude")
    [] p.k = "Break"    -> Wrap(a, m, "LoopBreak")
    [] p.k = "Continue" -> Wrap(a, m, "LoopContinue")
    [] p.k = "Return"   -> FuncReturn(p)
    [] p.k \in {"None", "Auto", "Int", "Float", "Bool", "Numeric", "Str", "Label", "Raw"} -> a
    [] OTHER -> Expected(p, "expression")

(***************************************************************************)
(* Whole texts                                                             *)
(***************************************************************************)
ParseMarkup(T) ==
  LET p == NewParser(T, 0, Markup)
  IN  Inner("Markup", MarkupLoop(p, TRUE, 0, {"End"}).N)
ParseCode(T) == Inner("Code", CodeLoop(NewParser(T, 0, Code), {"End"}).N)
Parse(T, mode) == IF mode = Markup THEN ParseMarkup(T) ELSE ParseCode(T)
=============================================================================
