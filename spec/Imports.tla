------------------------------- MODULE Imports -------------------------------
(***************************************************************************)
(* What a source file refers to: packages and files it imports or          *)
(* includes, files it loads.  References are literal strings at places the *)
(* grammar determines; text that only looks like one (in comments, raw     *)
(* text, strings, plain markup) is none.                                   *)
(***************************************************************************)
EXTENDS Views, SequencesExt

PK == INSTANCE PackageText
PO == INSTANCE PathOps

\* Children that are neither trivia nor among the kinds S, in order.
Items(M, i, S) == SetToSortSeq({j \in Kids(M, i) : ~Quiet(M, j) /\ M[j].k \notin S}, <)
Span(T, M, j) == SubSeq(T, M[j].p + 1, M[j].e)
Faulty(M, i) == \E j \in Within(M, i) : M[j].t = "E"
Nth(s, n) == IF Len(s) < n THEN 0 ELSE s[n]

\* The string an expression literally is, if any: parentheses do not matter.
RECURSIVE Literal(_, _)
Literal(M, i) == IF i = 0 THEN 0
                 ELSE IF M[i].k = "Str" THEN i
                 ELSE IF M[i].k = "Parenthesized" THEN Literal(M, Nth(Items(M, i, {"LeftParen", "RightParen", "Error"}), 1))
                 ELSE 0
HasKid(M, i, k) == \E j \in Kids(M, i) : M[j].k = k
RefAt(M, T, i, how) ==
  LET src == Nth(Items(M, i, {}), 2)  l == Literal(M, src) IN
  [how |-> how, s |-> StrValue(T, M[l].p, M[l].e), b |-> M[l].p, e |-> M[l].e, a |-> M[src].e,
   direct |-> M[src].k = "Str", named |-> HasKid(M, i, "As"), items |-> HasKid(M, i, "Colon"), bad |-> Faulty(M, i)]

RECURSIVE Collect(_, _, _)
\* References of imports and includes, in the order of the text.
Collect(M, T, i) ==
  IF i > Len(M) THEN <<>>
  ELSE IF M[i].k \in {"ModuleImport", "ModuleInclude"} /\ Literal(M, Nth(Items(M, i, {}), 2)) # 0
  THEN <<RefAt(M, T, i, IF M[i].k = "ModuleImport" THEN "import" ELSE "include")>> \o Collect(M, T, i + 1)
  ELSE Collect(M, T, i + 1)

\* ---- files loaded by calls with a literal path ---------------------------
Loaders == {<<105, 109, 97, 103, 101>>, <<112, 108, 117, 103, 105, 110>>, <<114, 101, 97, 100>>,     \* image plugin read
            <<99, 115, 118>>, <<106, 115, 111, 110>>, <<116, 111, 109, 108>>, <<121, 97, 109, 108>>, \* csv json toml yaml
            <<120, 109, 108>>, <<99, 98, 111, 114>>}                                                \* xml cbor
Bibliography == <<98, 105, 98, 108, 105, 111, 103, 114, 97, 112, 104, 121>>
Style == <<115, 116, 121, 108, 101>>
Load(M, T, j, how, bad) ==
  [how |-> how, s |-> StrValue(T, M[j].p, M[j].e), b |-> M[j].p, e |-> M[j].e, a |-> M[j].e,
   direct |-> TRUE, named |-> FALSE, items |-> FALSE, bad |-> bad]
RECURSIVE Each(_, _, _, _, _)
Each(M, T, js, how, bad) == IF js = <<>> THEN <<>>
                            ELSE <<Load(M, T, Head(js), how, bad)>> \o Each(M, T, Tail(js), how, bad)
\* The literal strings of an expression: itself, or the elements of an array.
RECURSIVE Literals(_, _)
Literals(M, js) == IF js = <<>> THEN <<>>
                   ELSE (IF Literal(M, Head(js)) = 0 THEN <<>> ELSE <<Literal(M, Head(js))>>) \o Literals(M, Tail(js))
Strings(M, j) == IF j = 0 THEN <<>>
                 ELSE IF M[j].k = "Array" THEN Literals(M, Items(M, j, {}))
                 ELSE Literals(M, <<j>>)
\* First positional argument and the value of the named argument `style`.
Positional(M, args) == Nth(Items(M, args, {"LeftParen", "RightParen", "Comma", "Named", "ContentBlock"}), 1)
StyleOf(M, T, args) ==
  LET s == SelectSeq(Items(M, args, {}), LAMBDA x : M[x].k = "Named" /\ LET y == Items(M, x, {"Colon"}) IN
                       Len(y) = 2 /\ M[y[1]].k = "Ident" /\ Span(T, M, y[1]) = Style /\ M[y[2]].k = "Str")
  IN  IF s = <<>> THEN <<>> ELSE <<Items(M, s[1], {"Colon"})[2]>>
\* A bibliography's style is a file or the name of a style.
LoadsAt(M, T, i) ==
  LET k == IF M[i].k = "SetRule" THEN Items(M, i, {"Set"}) ELSE Items(M, i, {})
      f == IF Len(k) >= 2 /\ M[k[1]].k = "Ident" /\ M[k[2]].k = "Args" THEN Span(T, M, k[1]) ELSE <<>>
      bad == Faulty(M, i)
  IN  IF f = Bibliography
      THEN Each(M, T, Strings(M, Positional(M, k[2])), "load", bad) \o Each(M, T, StyleOf(M, T, k[2]), "maybe", bad)
      ELSE IF f \in Loaders /\ M[i].k = "FuncCall" THEN Each(M, T, Literals(M, <<Positional(M, k[2])>>), "load", bad)
      ELSE <<>>
RECURSIVE Loads(_, _, _)
Loads(M, T, i) == IF i > Len(M) THEN <<>>
                  ELSE (IF M[i].k \in {"FuncCall", "SetRule"} THEN LoadsAt(M, T, i) ELSE <<>>) \o Loads(M, T, i + 1)

\* All references of a text, in no particular order.
Uses(T) == LET M == Flatten(Parse(T, Markup)) IN Collect(M, T, 1)
All(T)  == LET M == Flatten(Parse(T, Markup)) IN Collect(M, T, 1) \o Loads(M, T, 1)

\* ---- writing -------------------------------------------------------------
RECURSIVE QuoteChars(_)
QuoteChars(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s) \in {92, 34} THEN <<92, Head(s)>> ELSE <<Head(s)>>) \o QuoteChars(Tail(s))
Quote(s) == <<34>> \o QuoteChars(s) \o <<34>>
\* Edits [b, e, s] replacing b..e by s; in ascending order.
RECURSIVE Apply(_, _, _)
Apply(T, ed, pos) == IF ed = <<>> THEN SubSeq(T, pos + 1, Len(T))
                     ELSE SubSeq(T, pos + 1, Head(ed).b) \o Head(ed).s \o Apply(T, Tail(ed), Head(ed).e)
=============================================================================
