-------------------------------- MODULE Ast ---------------------------------
(***************************************************************************)
(* The typed view of a tree: what each construct consists of and what its  *)
(* literals denote.  M is a flattened tree (Views), T its text.  A part is *)
(* a pair of its name and its value:                                       *)
(*   n  a node          ns nodes            v/vs  node(s) with a variant   *)
(*   s  text            u  a number         b     a truth value            *)
(*   i  an integer (decimal digits)         f     decimal digits, exponent *)
(*   e  one of a set of names               is    items of an import       *)
(*   -  nothing                                                            *)
(***************************************************************************)
EXTENDS Views

PK == INSTANCE PackageText

ExprKind == {"Linebreak", "Parbreak", "Text", "Escape", "Shorthand", "SmartQuote", "Strong", "Emph", "Raw", "Link", "Label",
             "Ref", "Heading", "ListItem", "EnumItem", "TermItem", "Equation", "Math", "MathText", "MathIdent", "MathShorthand",
             "MathAlignPoint", "MathDelimited", "MathAttach", "MathPrimes", "MathFrac", "MathRoot", "Ident", "None", "Auto",
             "Bool", "Int", "Float", "Numeric", "Str", "CodeBlock", "ContentBlock", "Parenthesized", "Array", "Dict", "Unary",
             "Binary", "FieldAccess", "FuncCall", "Closure", "LetBinding", "DestructAssignment", "SetRule", "ShowRule",
             "Contextual", "Conditional", "WhileLoop", "ForLoop", "ModuleImport", "ModuleInclude", "LoopBreak", "LoopContinue",
             "FuncReturn"}
LiteralKind == {"None", "Auto", "Bool", "Int", "Float", "Numeric", "Str"}
Statement == {"LetBinding", "SetRule", "ShowRule", "ModuleImport", "ModuleInclude"}
\* Places at which several kinds of node may stand, and the variant each is there.
Place == {"Expr", "Pattern", "ArrayItem", "DictItem", "Arg", "Param", "DestructuringItem"}
PatternVariant(k) == CASE k = "Underscore" -> "Placeholder" [] k = "Parenthesized" -> "Parenthesized"
                       [] k = "Destructuring" -> "Destructuring" [] k \in ExprKind -> "Normal" [] OTHER -> ""
Variant(place, k) ==
  CASE place = "Expr"      -> IF k \in ExprKind THEN k ELSE ""
    [] place = "Pattern"   -> PatternVariant(k)
    [] place = "ArrayItem" -> IF k = "Spread" THEN k ELSE IF k \in ExprKind THEN "Pos" ELSE ""
    [] place = "DictItem"  -> IF k \in {"Named", "Keyed", "Spread"} THEN k ELSE ""
    [] place = "Arg"       -> IF k \in {"Named", "Spread"} THEN k ELSE IF k \in ExprKind THEN "Pos" ELSE ""
    [] place = "Param"     -> IF k \in {"Named", "Spread"} THEN k ELSE IF PatternVariant(k) # "" THEN "Pos" ELSE ""
    [] place = "DestructuringItem" -> IF k \in {"Named", "Spread"} THEN k ELSE IF PatternVariant(k) # "" THEN "Pattern" ELSE ""

\* ---- children ---------------------------------------------------------------
Children(M, i) == SelectSeq([x \in 1..(Last(M, i) - i) |-> i + x], LAMBDA j : M[j].par = i)
\* ... that are not trivia; separators and delimiters left out
Proper(M, i) == SelectSeq(Children(M, i), LAMBDA j : ~Quiet(M, j))
Without(M, i, S) == SelectSeq(Proper(M, i), LAMBDA j : M[j].k \notin S)
OfKinds(M, i, S) == SelectSeq(Children(M, i), LAMBDA j : M[j].k \in S)
Defective(M, i) == \E j \in Kids(M, i) : M[j].t = "E"
\* There is an error somewhere inside i.
Broken(M, i) == \E j \in i..Last(M, i) : M[j].t = "E"
Src(T, M, j) == SubSeq(T, M[j].p + 1, M[j].e)
Nth(s, x) == IF x >= 1 /\ x <= Len(s) THEN s[x] ELSE 0
Rev(s) == [x \in 1..Len(s) |-> s[Len(s) + 1 - x]]

\* ---- values -------------------------------------------------------------------
VNode(j) == IF j = 0 THEN <<"-">> ELSE <<"n", j>>
VNodes(s) == <<"ns", s>>
VIn(M, place, j) == IF j = 0 THEN <<"-">> ELSE <<"v", Variant(place, M[j].k), j>>
VAll(M, place, s) == <<"vs", [x \in DOMAIN s |-> <<Variant(place, M[s[x]].k), s[x]>>]>>
VText(c) == <<"s", c>>
VName(e) == <<"e", e>>
VNum(u) == <<"u", u>>
VBool(x) == <<"b", x>>
Nothing == <<"-">>
DigitsOf(c) == [x \in DOMAIN c |-> c[x] - 48]
RECURSIVE Natural(_, _)
Natural(d, acc) == IF d = <<>> THEN acc ELSE Natural(Tail(d), acc * 10 + Head(d))

\* Integers: decimal digits of the value; those that do not fit are left open.
IntParts(c) ==
  LET base == IF Len(c) > 1 /\ c[1] = 48 THEN CASE c[2] = 120 -> 16 [] c[2] = 111 -> 8 [] c[2] = 98 -> 2 [] OTHER -> 10 ELSE 10
      v == DecValue(IF base = 10 THEN c ELSE SubSeq(c, 3, Len(c)), base)
  IN  IF FitsI64(v) THEN << <<"get", <<"i", v>>>> >> ELSE <<>>
\* Decimal number c: digits d and exponent x with value 0.d * 10^x, shift of the point included.
Decimal(c) ==
  LET ex == {x \in DOMAIN c : c[x] \in {101, 69}}
      m  == IF ex = {} THEN c ELSE SubSeq(c, 1, MinOr(ex, 0) - 1)
      es == IF ex = {} THEN <<>> ELSE SubSeq(c, MinOr(ex, 0) + 1, Len(c))
      neg == es # <<>> /\ es[1] = 45
      ed == IF es # <<>> /\ es[1] \in {43, 45} THEN Tail(es) ELSE es
      pt == {x \in DOMAIN m : m[x] = 46}
      w  == IF pt = {} THEN m ELSE SubSeq(m, 1, MinOr(pt, 0) - 1)
      fr == IF pt = {} THEN <<>> ELSE SubSeq(m, MinOr(pt, 0) + 1, Len(m))
      small == Len(ed) <= 4
      x10 == IF small THEN Natural(DigitsOf(ed), 0) ELSE 0
  IN  [ok |-> small, d |-> DigitsOf(w \o fr), x |-> (IF neg THEN -x10 ELSE x10) - Len(fr)]
VDecimal(c) == LET v == Decimal(c) IN <<"f", v.d, v.x>>
UnitOf == [pt |-> "Pt", mm |-> "Mm", cm |-> "Cm", in |-> "In", deg |-> "Deg", rad |-> "Rad", em |-> "Em", fr |-> "Fr"]
UnitAt(c, s) ==   \* the unit that begins at s in c
  LET u == SubSeq(c, s, Len(c)) IN
  CASE u = <<112, 116>> -> "Pt" [] u = <<109, 109>> -> "Mm" [] u = <<99, 109>> -> "Cm" [] u = <<105, 110>> -> "In"
    [] u = <<100, 101, 103>> -> "Deg" [] u = <<114, 97, 100>> -> "Rad" [] u = <<101, 109>> -> "Em" [] u = <<102, 114>> -> "Fr"
    [] u = <<37>> -> "Percent" [] OTHER -> ""
\* The unit is the suffix: the latest place that leaves one.
NumericParts(c) ==
  LET S == {s \in 2..Len(c) : UnitAt(c, s) # "" /\ c[s - 1] \in (48..57) \cup {46}}
      s == MinOr(S, 0)
  IN  IF S = {} \/ ~Decimal(SubSeq(c, 1, s - 1)).ok THEN <<>>
      ELSE << <<"value", VDecimal(SubSeq(c, 1, s - 1))>>, <<"unit", VName(UnitAt(c, s))>> >>
EscapeParts(T, M, i) ==
  LET c == Src(T, M, i) IN
  IF Len(c) > 3 /\ c[2] = 117 /\ c[3] = 123 THEN << <<"get", VNum(HexNum(T, M[i].p + 3, M[i].e - 1, 0))>> >>
  ELSE IF Len(c) = 2 THEN << <<"get", VNum(c[2])>> >> ELSE <<>>
ShorthandChar(c) ==
  CASE c = <<46, 46, 46>> -> 8230 [] c = <<126>> -> 160 [] c = <<45, 45, 45>> -> 8212 [] c = <<45, 45>> -> 8211
    [] c = <<45, 63>> -> 173 [] c = <<45>> -> 8722 [] OTHER -> 0
\* Math shorthands and the characters they stand for.
MathShorthandTable == {
  <<<<46,46,46>>, 8230>>, <<<<45>>, 8722>>, <<<<42>>, 8727>>, <<<<126>>, 8764>>, <<<<33,61>>, 8800>>, <<<<58,61>>, 8788>>,
  <<<<58,58,61>>, 10868>>, <<<<61,58>>, 8789>>, <<<<60,60>>, 8810>>, <<<<60,60,60>>, 8920>>, <<<<62,62>>, 8811>>,
  <<<<62,62,62>>, 8921>>, <<<<60,61>>, 8804>>, <<<<62,61>>, 8805>>, <<<<45,62>>, 8594>>, <<<<45,45,62>>, 10230>>,
  <<<<124,45,62>>, 8614>>, <<<<62,45,62>>, 8611>>, <<<<45,62,62>>, 8608>>, <<<<60,45>>, 8592>>, <<<<60,45,45>>, 10229>>,
  <<<<60,45,60>>, 8610>>, <<<<60,60,45>>, 8606>>, <<<<60,45,62>>, 8596>>, <<<<60,45,45,62>>, 10231>>, <<<<126,62>>, 8669>>,
  <<<<126,126,62>>, 10239>>, <<<<60,126>>, 8668>>, <<<<60,126,126>>, 11059>>, <<<<61,62>>, 8658>>, <<<<124,61,62>>, 10503>>,
  <<<<61,61,62>>, 10233>>, <<<<60,61,61>>, 10232>>, <<<<60,61,62>>, 8660>>, <<<<60,61,61,62>>, 10234>>, <<<<91,124>>, 10214>>,
  <<<<124,93>>, 10215>>, <<<<124,124>>, 8214>>}
MathShorthandChar(c) == LET S == {x \in MathShorthandTable : x[1] = c} IN IF S = {} THEN 0 ELSE (CHOOSE x \in S : TRUE)[2]
RawParts(T, M, i) ==
  LET d == OfKinds(M, i, {"RawDelim"})
      ticks == M[Nth(d, 1)].e - M[Nth(d, 1)].p
      nl == \E x \in 1..(M[i].e - M[i].p) : Newline(T[M[i].p + x])
  IN  IF d = <<>> THEN <<>>
      ELSE << <<"lines", VNodes(OfKinds(M, i, {"Text"}))>>,
              <<"lang", VNode(IF ticks >= 3 THEN Nth(OfKinds(M, i, {"RawLang"}), 1) ELSE 0)>>,
              <<"block", VBool(ticks >= 3 /\ nl)>> >>

\* ---- operators ----------------------------------------------------------------
OpName(k) == CASE k = "Plus" -> "+" [] k = "Minus" -> "-" [] k = "Star" -> "*" [] k = "Slash" -> "/" [] k = "And" -> "and"
               [] k = "Or" -> "or" [] k = "EqEq" -> "==" [] k = "ExclEq" -> "!=" [] k = "Lt" -> "<" [] k = "LtEq" -> "<="
               [] k = "Gt" -> ">" [] k = "GtEq" -> ">=" [] k = "Eq" -> "=" [] k = "In" -> "in" [] k = "Not" -> "not"
               [] k = "PlusEq" -> "+=" [] k = "HyphEq" -> "-=" [] k = "StarEq" -> "*=" [] k = "SlashEq" -> "/="

\* ---- bindings -----------------------------------------------------------------
RECURSIVE Bound(_, _), BoundAll(_, _)
\* Names a pattern introduces.
Bound(M, j) ==
  CASE M[j].k = "Ident" -> <<j>>
    [] M[j].k = "Parenthesized" -> LET q == Without(M, j, {"LeftParen", "RightParen"}) IN IF q = <<>> THEN <<>> ELSE Bound(M, q[1])
    [] M[j].k = "Destructuring" -> BoundAll(M, Without(M, j, {"LeftParen", "RightParen", "Comma"}))
    [] M[j].k = "Named"  -> LET q == Without(M, j, {"Colon"}) IN IF Len(q) < 2 THEN <<>> ELSE Bound(M, q[2])
    [] M[j].k = "Spread" -> LET q == Without(M, j, {"Dots"}) IN IF q # <<>> /\ M[q[1]].k = "Ident" THEN <<q[1]>> ELSE <<>>
    [] OTHER -> <<>>
BoundAll(M, js) == IF js = <<>> THEN <<>> ELSE Bound(M, Head(js)) \o BoundAll(M, Tail(js))

\* ---- imports ------------------------------------------------------------------
\* The name a bare import binds.
StemOf(s) ==
  LET sl == {x \in DOMAIN s : s[x] = 47}
      b == SubSeq(s, MaxOr(sl, 0) + 1, Len(s))
      dots == {x \in DOMAIN b : b[x] = 46 /\ x > 1}
  IN  IF dots = {} THEN b ELSE SubSeq(b, 1, MaxOr(dots, 0) - 1)
BareName(T, M, j) ==
  CASE M[j].k = "Ident" -> VText(Src(T, M, j))
    [] M[j].k = "FieldAccess" -> VText(Src(T, M, Rev(Proper(M, j))[1]))
    [] M[j].k = "Str" ->
         LET s == StrValue(T, M[j].p, M[j].e) IN
         IF s # <<>> /\ s[1] = 64
         THEN (IF PK!SpecOf(s).ok THEN VText(PK!SpecOf(s).name) ELSE VName("package"))
         ELSE LET b == StemOf(s) IN
              IF b # <<>> /\ IdStart(b[1]) /\ \A x \in 2..Len(b) : IdContinue(b[x]) THEN VText(b) ELSE VName("path")
    [] OTHER -> VName("dynamic")
\* (paths that end in a slash or a dot are left open)
BareOpen(T, M, j) == Broken(M, j) \/ (M[j].k = "Str" /\ LET s == StrValue(T, M[j].p, M[j].e) IN s # <<>> /\ s[Len(s)] \in {47, 46})
\* The last name of an imported path, the path of an item, the name it is bound to.
PathName(M, j) == Nth(Rev(OfKinds(M, j, {"Ident"})), 1)
ItemPath(M, j) == IF M[j].k = "RenamedImportItem" THEN Nth(Proper(M, j), 1) ELSE j
ItemBound(M, j) == IF M[j].k = "RenamedImportItem" THEN Nth(Proper(M, j), 3) ELSE PathName(M, j)
AfterKind(M, i, k) ==   \* the first proper child after the first of kind k
  LET q == Proper(M, i)  S == {x \in DOMAIN q : M[q[x]].k = k} IN IF S = {} THEN 0 ELSE Nth(q, MinOr(S, 0) + 1)
HasChild(M, i, k) == \E j \in Kids(M, i) : M[j].k = k

\* ---- constructs ---------------------------------------------------------------
Body(M, i) == << <<"body", VNode(Nth(OfKinds(M, i, {"Markup", "Code"}), 1))>> >>
\* White space directly after a statement is not content.
RECURSIVE Content(_, _, _)
Content(M, js, stmt) ==
  IF js = <<>> THEN <<>>
  ELSE LET j == Head(js)
           here == IF M[j].k \in ExprKind \/ (M[j].k = "Space" /\ ~stmt) THEN <<j>> ELSE <<>>
       IN  here \o Content(M, Tail(js), M[j].k \in Statement)

Parts(T, M, i) ==
  LET k == M[i].k
      C == Without(M, i, {"Hash"})
      c(x) == Nth(C, x)
      last == Nth(Rev(C), 1)
      src == Src(T, M, i)
      List == {"LeftParen", "RightParen", "Comma", "Colon", "Semicolon", "Hash"}
      After(x) == \* the expression behind the first token of kind x
        LET q == {y \in DOMAIN C : M[C[y]].k = x}
            e == {y \in DOMAIN C : M[C[y]].k \in ExprKind /\ y > MinOr(q, 0)}
        IN  VNode(IF q = {} \/ e = {} THEN 0 ELSE C[MinOr(e, 0)])
  IN
  CASE k = "Markup" -> << <<"exprs", VNodes(Content(M, Children(M, i), FALSE))>> >>
    [] k = "Code" -> << <<"exprs", VNodes(SelectSeq(Children(M, i), LAMBDA j : M[j].k \in ExprKind /\ M[j].k # "Parbreak"))>> >>
    [] k \in {"Text", "RawLang", "Link", "Ident"} -> << <<"get", VText(src)>> >>
    [] k = "Label" -> << <<"get", VText(SubSeq(src, 2, Len(src) - 1))>> >>
    [] k = "Escape" -> EscapeParts(T, M, i)
    [] k = "Shorthand" -> << <<"get", VNum(ShorthandChar(src))>> >>
    [] k = "SmartQuote" -> << <<"double", VBool(src = <<34>>)>> >>
    [] k = "Bool" -> << <<"get", VBool(src = <<116, 114, 117, 101>>)>> >>
    [] k = "Int" -> IntParts(src)
    [] k = "Float" -> IF Decimal(src).ok THEN << <<"get", VDecimal(src)>> >> ELSE <<>>
    [] k = "Numeric" -> NumericParts(src)
    [] k = "Str" -> << <<"get", VText(StrValue(T, M[i].p, M[i].e))>> >>
    [] k \in {"Strong", "Emph", "ListItem", "CodeBlock", "ContentBlock"} -> Body(M, i)
    [] k = "Heading" -> Body(M, i) \o << <<"depth", VNum(M[c(1)].e - M[c(1)].p)>> >>
    [] k = "EnumItem" ->
         LET m == Src(T, M, c(1))  d == SubSeq(m, 1, Len(m) - 1) IN
         Body(M, i) \o (IF m = <<43>> THEN << <<"number", Nothing>> >>
                        ELSE IF FitsI64(DecValue(d, 10)) THEN << <<"number", <<"i", DecValue(d, 10)>>>> >> ELSE <<>>)
    [] k = "TermItem" -> LET b == OfKinds(M, i, {"Markup"}) IN
         IF Len(b) = 2 THEN << <<"term", VNode(b[1])>>, <<"description", VNode(b[2])>> >> ELSE <<>>
    [] k = "Raw" -> RawParts(T, M, i)
    [] k = "Ref" -> << <<"target", VText(Tail(Src(T, M, c(1))))>>, <<"supplement", VNode(Nth(OfKinds(M, i, {"ContentBlock"}), 1))>> >>
    [] k = "Parenthesized" -> IF Len(C) # 3 THEN <<>>
         ELSE (IF M[c(2)].k \in ExprKind THEN << <<"expr", VNode(c(2))>> >> ELSE <<>>) \o << <<"pattern", VIn(M, "Pattern", c(2))>> >>
    [] k = "Array" -> << <<"items", VAll(M, "ArrayItem", Without(M, i, List))>> >>
    [] k = "Dict" -> << <<"items", VAll(M, "DictItem", Without(M, i, List))>> >>
    [] k = "Named" -> IF Len(C) # 3 THEN <<>>
         ELSE << <<"name", VNode(c(1))>>, <<"pattern", VIn(M, "Pattern", c(3))>> >>
              \o (IF M[c(3)].k \in ExprKind THEN << <<"expr", VNode(c(3))>> >> ELSE <<>>)
    [] k = "Keyed" -> IF Len(C) # 3 THEN <<>> ELSE << <<"key", VNode(c(1))>>, <<"expr", VNode(c(3))>> >>
    [] k = "Spread" -> IF Len(C) = 1 THEN << <<"sink_ident", Nothing>>, <<"sink_expr", Nothing>> >>
         ELSE << <<"expr", VNode(c(2))>>, <<"sink_expr", VNode(c(2))>> >> \o (IF M[c(2)].k = "Ident" THEN << <<"sink_ident", VNode(c(2))>> >> ELSE <<>>)
    [] k = "Unary" -> IF Len(C) # 2 THEN <<>> ELSE << <<"op", VName(OpName(M[c(1)].k))>>, <<"expr", VNode(c(2))>> >>
    [] k = "Binary" -> IF Len(C) \notin {3, 4} THEN <<>>
         ELSE << <<"lhs", VNode(c(1))>>, <<"op", VName(IF Len(C) = 4 THEN "not in" ELSE OpName(M[c(2)].k))>>, <<"rhs", VNode(last)>> >>
    [] k = "FieldAccess" -> << <<"target", VNode(c(1))>>, <<"field", VNode(last)>> >>
    [] k = "FuncCall" -> << <<"callee", VNode(c(1))>>, <<"args", VNode(c(2))>> >>
    [] k = "Args" -> << <<"items", VAll(M, "Arg", Without(M, i, List))>> >>
         \o (IF last # 0 /\ M[last].k = "RightParen" THEN << <<"trailing_comma", VBool(M[Nth(Rev(C), 2)].k = "Comma")>> >>
             ELSE IF ~HasChild(M, i, "LeftParen") THEN << <<"trailing_comma", VBool(FALSE)>> >> ELSE <<>>)
    [] k = "Closure" -> << <<"name", VNode(IF M[c(1)].k = "Ident" THEN c(1) ELSE 0)>>,
                           <<"params", VNode(IF M[c(1)].k = "Ident" THEN c(2) ELSE c(1))>>, <<"body", VNode(last)>> >>
    [] k = "Params" -> << <<"children", VAll(M, "Param", Without(M, i, List))>> >>
    [] k = "Destructuring" -> << <<"items", VAll(M, "DestructuringItem", Without(M, i, List))>>, <<"bindings", VNodes(Bound(M, i))>> >>
    [] k = "LetBinding" ->
         IF c(2) = 0 THEN <<>>
         ELSE IF M[c(2)].k = "Closure"
         THEN LET f == Nth(Proper(M, c(2)), 1) IN
              << <<"function", VNode(f)>>, <<"bindings", VNodes(<<f>>)>>, <<"init", VNode(c(2))>> >>
         ELSE << <<"pattern", VIn(M, "Pattern", c(2))>>, <<"bindings", VNodes(Bound(M, c(2)))>>, <<"init", VNode(c(4))>> >>
    [] k = "DestructAssignment" -> << <<"pattern", VIn(M, "Pattern", c(1))>>, <<"value", VNode(last)>> >>
    [] k = "SetRule" -> << <<"target", VNode(c(2))>>, <<"args", VNode(c(3))>>, <<"condition", VNode(AfterKind(M, i, "If"))>> >>
    [] k = "ShowRule" -> << <<"selector", VNode(IF M[c(2)].k = "Colon" THEN 0 ELSE c(2))>>, <<"transform", VNode(last)>> >>
    [] k = "Contextual" -> << <<"body", VNode(last)>> >>
    [] k = "Conditional" -> << <<"condition", VNode(c(2))>>, <<"if_body", VNode(c(3))>>, <<"else_body", VNode(c(5))>> >>
    [] k = "WhileLoop" -> << <<"condition", VNode(c(2))>>, <<"body", VNode(last)>> >>
    [] k = "ForLoop" -> << <<"pattern", VIn(M, "Pattern", c(2))>>, <<"iterable", VNode(c(4))>>, <<"body", VNode(last)>> >>
    [] k = "ModuleImport" ->
         << <<"source", VNode(c(2))>>, <<"new_name", VNode(AfterKind(M, i, "As"))>>,
            <<"imports", IF ~HasChild(M, i, "Colon") THEN Nothing
                         ELSE IF HasChild(M, i, "Star") THEN VName("wildcard")
                         ELSE VNode(Nth(OfKinds(M, i, {"ImportItems"}), 1))>> >>
         \o (IF BareOpen(T, M, c(2)) THEN <<>> ELSE << <<"bare_name", BareName(T, M, c(2))>> >>)
    [] k = "ImportItems" ->
         LET q == OfKinds(M, i, {"ImportItemPath", "RenamedImportItem"}) IN
         IF \E x \in DOMAIN q : PathName(M, ItemPath(M, q[x])) = 0 THEN <<>>
         ELSE << <<"iter", <<"is", [x \in DOMAIN q |-> <<ItemPath(M, q[x]), PathName(M, ItemPath(M, q[x])), ItemBound(M, q[x])>>]>>>> >>
    [] k = "ImportItemPath" -> << <<"iter", VNodes(OfKinds(M, i, {"Ident"}))>>, <<"name", VNode(PathName(M, i))>> >>
    [] k = "RenamedImportItem" -> IF PathName(M, c(1)) = 0 THEN <<>>
         ELSE << <<"path", VNode(c(1))>>, <<"original_name", VNode(PathName(M, c(1)))>>, <<"new_name", VNode(c(3))>> >>
    [] k = "ModuleInclude" -> << <<"source", VNode(c(2))>> >>
    [] k = "Equation" ->
         LET A == Children(M, i) IN
         << <<"body", VNode(Nth(OfKinds(M, i, {"Math"}), 1))>>,
            <<"block", VBool(Len(A) > 2 /\ M[A[2]].k = "Space" /\ M[A[Len(A) - 1]].k = "Space")>> >>
    [] k = "Math" ->
         LET A == Children(M, i) IN
         << <<"exprs", VNodes(SelectSeq(A, LAMBDA j : M[j].k = "Space" \/ M[j].k \in ExprKind))>>,
            <<"was_deparenthesized", VBool(A # <<>> /\ M[A[1]].k = "LeftParen" /\ M[A[Len(A)]].k = "RightParen")>> >>
    [] k = "MathText" -> << <<"get", IF Number(src[1]) THEN VText(src) ELSE VNum(src[1])>> >>
    [] k = "MathIdent" -> << <<"get", VText(src)>> >>
    [] k = "MathShorthand" -> << <<"get", VNum(MathShorthandChar(src))>> >>
    [] k = "MathDelimited" -> << <<"open", VNode(c(1))>>, <<"body", VNode(Nth(OfKinds(M, i, {"Math"}), 1))>>, <<"close", VNode(last)>> >>
    \* (an operand may be missing)
    [] k \in {"MathAttach", "MathFrac"} /\ {M[c(1)].k, M[last].k} \ ExprKind # {} -> <<>>
    [] k = "MathAttach" ->
         << <<"base", VNode(c(1))>>, <<"bottom", After("Underscore")>>, <<"top", After("Hat")>>,
            <<"primes", VNode(IF Len(C) > 1 /\ M[c(2)].k = "MathPrimes" THEN c(2) ELSE 0)>> >>
    [] k = "MathPrimes" -> << <<"count", VNum(Len(OfKinds(M, i, {"Prime"})))>> >>
    [] k = "MathFrac" -> << <<"num", VNode(c(1))>>, <<"denom", VNode(last)>> >>
    [] k = "MathRoot" ->
         << <<"index", IF T[M[i].p + 1] = 8731 THEN VNum(3) ELSE IF T[M[i].p + 1] = 8732 THEN VNum(4) ELSE Nothing>>,
            <<"radicand", VNode(c(2))>> >>
    [] k = "FuncReturn" -> << <<"body", VNode(c(2))>> >>
    [] OTHER -> <<>>

\* Kinds whose parts make sense only with at least this many proper children.
Needs == [Heading |-> 2, EnumItem |-> 2, Ref |-> 1, Spread |-> 1, FieldAccess |-> 3, FuncCall |-> 2, Closure |-> 3, LetBinding |-> 2,
          DestructAssignment |-> 3, SetRule |-> 3, ShowRule |-> 3, Contextual |-> 2, Conditional |-> 3, WhileLoop |-> 3, ForLoop |-> 5,
          ModuleImport |-> 2, RenamedImportItem |-> 3, ModuleInclude |-> 2, ImportItemPath |-> 1, Strong |-> 3, Emph |-> 3,
          Unary |-> 2, Binary |-> 3, Named |-> 3, Keyed |-> 3, Parenthesized |-> 3,
          Equation |-> 3, MathDelimited |-> 3, MathAttach |-> 1, MathFrac |-> 3, MathRoot |-> 2, TermItem |-> 4, CodeBlock |-> 3, ContentBlock |-> 3]
\* Constructs whose parts depend on what is inside of their children.
Lists == {"ImportItems", "ImportItemPath", "RenamedImportItem", "LetBinding", "Destructuring"}
Complete(M, i) == M[i].k \in DOMAIN Needs => Len(Without(M, i, {"Hash"})) >= Needs[M[i].k]
\* What is said about node i: nothing if an error sits in it.
Said(T, M, i) == IF M[i].t = "E" \/ Defective(M, i) \/ ~Complete(M, i) \/ (M[i].k \in Lists /\ Broken(M, i)) THEN <<>> ELSE Parts(T, M, i)
=============================================================================
