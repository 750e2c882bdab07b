-------------------------------- MODULE Views --------------------------------
(***************************************************************************)
(* Looking at a tree: the nodes of a tree with their places, the nodes     *)
(* reached from each by the accessors, the category in which each is       *)
(* highlighted, and the marked-up text.  Nodes are named by their number   *)
(* in document order, parents before children; 0 is "no node".             *)
(***************************************************************************)
EXTENDS Parser

Node(x, pos, par, d) == [k |-> x.k, t |-> x.t, p |-> pos, e |-> pos + x.l, par |-> par, d |-> d]
RECURSIVE FlatAt(_, _, _, _, _), FlatAll(_, _, _, _, _, _)
FlatAt(x, pos, par, d, no) == <<Node(x, pos, par, d)>> \o FlatAll(x.c, 1, pos, no, d + 1, no + 1)
\* The children from i on; the first of them is node `no`.
FlatAll(c, i, pos, par, d, no) ==
  IF i > Len(c) THEN <<>>
  ELSE LET s == FlatAt(c[i], pos, par, d, no) IN
       s \o FlatAll(c, i + 1, pos + c[i].l, par, d, no + Len(s))
Flatten(x) == FlatAt(x, 0, 0, 0, 1)

MaxOr(S, z) == IF S = {} THEN z ELSE CHOOSE x \in S : \A y \in S : y <= x
MinOr(S, z) == IF S = {} THEN z ELSE CHOOSE x \in S : \A y \in S : y >= x

(***************************************************************************)
(* N is a flattened tree.                                                  *)
(***************************************************************************)
\* The last node of the subtree of i.
Last(N, i) == MinOr({j \in (i + 1)..Len(N) : N[j].d <= N[i].d}, Len(N) + 1) - 1
Within(N, i) == i..Last(N, i)
Kids(N, i) == {j \in Within(N, i) : N[j].par = i}

Quiet(N, j)   == N[j].k \in Trivia
\* Nodes a cursor can be moved to: proper tokens, not errors.
IsLeaf(N, j)  == N[j].t = "L" /\ ~Quiet(N, j)

Sib(N, i) == IF N[i].par = 0 THEN {} ELSE {j \in Kids(N, N[i].par) : ~Quiet(N, j)}
PrevSibling(N, i) == MaxOr({j \in Sib(N, i) : j < i}, 0)
NextSibling(N, i) == MinOr({j \in Sib(N, i) : j > i}, 0)
PrevLeaf(N, i)    == MaxOr({j \in 1..(i - 1) : IsLeaf(N, j)}, 0)
NextLeaf(N, i)    == MinOr({j \in (Last(N, i) + 1)..Len(N) : IsLeaf(N, j)}, 0)
Leftmost(N, i)    == MinOr({j \in Within(N, i) : IsLeaf(N, j)}, 0)
Rightmost(N, i)   == MaxOr({j \in Within(N, i) : IsLeaf(N, j)}, 0)
\* The childless node in the subtree of i that ends at or covers a position.
Childless(N, j)   == j = Len(N) \/ N[j + 1].d <= N[j].d
LeafBefore(N, i, c) == MinOr({j \in Within(N, i) : Childless(N, j) /\ N[j].p < c /\ c <= N[j].e}, 0)
\* (at the very start: the one that starts there, if nothing comes behind it)
RECURSIVE AtStart(_, _)
AtStart(N, i) == IF Childless(N, i) THEN i
                 ELSE LET k == MaxOr(Kids(N, i), 0) IN IF N[k].p = N[i].p THEN AtStart(N, k) ELSE 0
LeafAfter(N, i, c)  == MinOr({j \in Within(N, i) : Childless(N, j) /\ N[j].p <= c /\ c < N[j].e}, 0)
ParentKind(N, i) == IF N[i].par = 0 THEN "" ELSE N[N[i].par].k
KindOf(N, i) == IF i = 0 THEN "" ELSE N[i].k

(***************************************************************************)
(* Highlighting.                                                           *)
(***************************************************************************)
KeywordKinds == {"Not", "And", "Or", "None", "Auto", "Let", "Set", "Show", "Context", "If", "Else", "For", "In", "While",
             "Break", "Continue", "Return", "Import", "Include", "As", "Bool"}
Puncts   == {"LeftBrace", "RightBrace", "LeftBracket", "RightBracket", "LeftParen", "RightParen", "Comma", "Semicolon",
             "Colon", "Dot"}
Operators == {"Plus", "Minus", "Slash", "EqEq", "ExclEq", "Lt", "LtEq", "Gt", "GtEq", "PlusEq", "HyphEq", "StarEq",
              "SlashEq", "Dots", "Arrow"}
\* Expressions that may follow a hash.
Hashable == {"Ident", "None", "Auto", "Bool", "Int", "Float", "Numeric", "Str", "CodeBlock", "ContentBlock", "Array", "Dict",
             "Parenthesized", "FieldAccess", "FuncCall", "LetBinding", "SetRule", "ShowRule", "Contextual", "Conditional",
             "WhileLoop", "ForLoop", "ModuleImport", "ModuleInclude", "LoopBreak", "LoopContinue", "FuncReturn"}

\* Outermost field access i is in by way of field accesses only.
RECURSIVE Climb(_, _)
Climb(N, i) == IF ParentKind(N, i) = "FieldAccess" THEN Climb(N, N[i].par) ELSE i

RECURSIVE IdentTag(_, _), HashTag(_, _), TagOf(_, _)
IdentTag(N, i) ==
  LET nx == NextLeaf(N, i)  pv == PrevLeaf(N, i)  top == Climb(N, i) IN
  \* called, or declared with parameters
  IF nx # 0 /\ N[nx].p = N[i].e /\
     \/ N[nx].k = "LeftParen" /\ ParentKind(N, nx) \in {"Args", "Params"}
     \/ N[nx].k = "LeftBracket" /\ ParentKind(N, nx) = "ContentBlock"
  THEN "Function"
  \* a name in math stands for a value
  ELSE IF N[i].k = "MathIdent" THEN "Interpolated"
  \* selector or transformation of a show rule
  ELSE IF ParentKind(N, top) = "ShowRule" /\ "Colon" \in {KindOf(N, nx), KindOf(N, pv)}
  THEN "Function"
  \* embedded in markup
  ELSE IF KindOf(N, PrevLeaf(N, top)) = "Hash"
  THEN "Interpolated"
  \* a field of something named
  ELSE LET pp == PrevLeaf(N, pv) IN
       IF KindOf(N, pv) = "Dot" /\ KindOf(N, pp) \in {"Ident", "MathIdent"} THEN IdentTag(N, pp) ELSE ""
\* A hash goes with the first leaf of what it embeds.
HashTag(N, i) ==
  LET s == NextSibling(N, i) IN
  IF KindOf(N, s) \in Hashable /\ Leftmost(N, s) # 0 THEN TagOf(N, Leftmost(N, s)) ELSE ""
TagOf(N, i) ==
  LET k == N[i].k IN
  CASE k \in {"Ident", "MathIdent"} -> IdentTag(N, i)
    [] k = "Hash"  -> HashTag(N, i)
    [] k = "Markup" -> IF ParentKind(N, i) = "TermItem" /\ KindOf(N, NextSibling(N, i)) = "Colon" THEN "ListTerm" ELSE ""
    [] k \in {"Linebreak", "Escape", "Shorthand", "MathShorthand"} -> "Escape"
    [] k = "Dollar" -> "MathDelim"
    [] k \in {"MathAlignPoint", "Hat", "Prime", "Root"} -> "MathOperator"
    [] k = "Underscore" -> IF ParentKind(N, i) = "MathAttach" THEN "MathOperator" ELSE ""
    [] k = "Slash" /\ ParentKind(N, i) = "MathFrac" -> "MathOperator"
    [] k \in {"Strong", "Emph", "Raw", "Link", "Label", "Ref", "Heading"} -> k
    [] k \in {"ListMarker", "EnumMarker", "TermMarker"} -> "ListMarker"
    [] k \in Puncts -> "Punctuation"
    [] k = "Star" -> IF ParentKind(N, i) = "Strong" THEN "" ELSE "Operator"
    [] k = "Eq"   -> IF ParentKind(N, i) = "Heading" THEN "" ELSE "Operator"
    [] k \in Operators -> "Operator"
    [] k \in KeywordKinds  -> "Keyword"
    [] k \in {"Int", "Float", "Numeric"} -> "Number"
    [] k = "Str" -> "String"
    [] k \in {"Shebang", "LineComment", "BlockComment"} -> "Comment"
    [] k = "Error" -> "Error"
    [] OTHER -> ""

\* The marked-up text: categories opening and closing around pieces of text.
RECURSIVE Events(_, _), EventsAll(_, _)
Events(N, i) ==
  LET g == TagOf(N, i)
      b == IF Childless(N, i) THEN (IF N[i].e > N[i].p THEN << <<"text", N[i].p, N[i].e>> >> ELSE <<>>)
           ELSE EventsAll(N, {j \in Within(N, i) : N[j].par = i})
  IN IF g \in {"", "Error"} THEN b ELSE <<<<"open", g>>>> \o b \o <<<<"close", g>>>>
EventsAll(N, S) == IF S = {} THEN <<>> ELSE Events(N, MinOr(S, 0)) \o EventsAll(N, S \ {MinOr(S, 0)})
=============================================================================
