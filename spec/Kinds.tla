------------------------------- MODULE Kinds -------------------------------
(***************************************************************************)
(* The kinds of syntax nodes, their classes, their user-visible names, the *)
(* operator table and the first sets of Typst's grammar.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Trivia     == {"Shebang", "LineComment", "BlockComment", "Space", "Parbreak"}
Grouping   == {"LeftBracket", "LeftBrace", "LeftParen",
               "RightBracket", "RightBrace", "RightParen"}
Terminator == {"End", "Semicolon", "RightBrace", "RightParen", "RightBracket"}
Block      == {"CodeBlock", "ContentBlock"}
KeywordText == [Not |-> "not", And |-> "and", Or |-> "or", None |-> "none",
  Auto |-> "auto", Let |-> "let", Set |-> "set", Show |-> "show",
  Context |-> "context", If |-> "if", Else |-> "else", For |-> "for",
  In |-> "in", While |-> "while", Break |-> "break", Continue |-> "continue",
  Return |-> "return", Import |-> "import", Include |-> "include", As |-> "as"]
Keyword    == DOMAIN KeywordText

StmtStart  == {"Let", "Set", "Show", "Import", "Include", "Return"}
UnaryOps   == {"Plus", "Minus", "Not"}
BinaryOps  == {"Plus", "Minus", "Star", "Slash", "And", "Or", "EqEq", "ExclEq",
               "Lt", "LtEq", "Gt", "GtEq", "Eq", "In", "PlusEq", "HyphEq",
               "StarEq", "SlashEq"}
AtomicExprStart ==
  {"Ident", "LeftBrace", "LeftBracket", "LeftParen", "Dollar", "Let", "Set",
   "Show", "Context", "If", "While", "For", "Import", "Include", "Break",
   "Continue", "Return", "None", "Auto", "Int", "Float", "Bool", "Numeric",
   "Str", "Label", "Raw"}
ExprStart    == AtomicExprStart \cup {"Underscore"} \cup UnaryOps
ItemStart    == ExprStart \cup {"Dots"}
PatternLeaf  == AtomicExprStart
PatternStart == PatternLeaf \cup {"LeftParen", "Underscore"}
PatItemStart == PatternStart \cup {"Dots"}

MathStart == {"Hash", "MathIdent", "FieldAccess", "Dot", "Comma", "Semicolon", "RightParen", "Text", "MathText",
              "MathShorthand", "Linebreak", "MathAlignPoint", "Escape", "Str", "Root", "Prime"}

UnaryPrec(k)  == IF k = "Not" THEN 4 ELSE 7
NotInPrec     == 4
BinaryPrec(k) ==
  CASE k \in {"Star", "Slash"} -> 6
    [] k \in {"Plus", "Minus"} -> 5
    [] k \in {"EqEq", "ExclEq", "Lt", "LtEq", "Gt", "GtEq", "In"} -> 4
    [] k = "And" -> 3
    [] k = "Or" -> 2
    [] k \in {"Eq", "PlusEq", "HyphEq", "StarEq", "SlashEq"} -> 1
RightAssoc(k) == k \in {"Eq", "PlusEq", "HyphEq", "StarEq", "SlashEq"}

NameTable == [
  End |-> "end of tokens",
  Error |-> "syntax error",
  Shebang |-> "shebang",
  LineComment |-> "line comment",
  BlockComment |-> "block comment",
  Markup |-> "markup",
  Text |-> "text",
  Space |-> "space",
  Linebreak |-> "line break",
  Parbreak |-> "paragraph break",
  Escape |-> "escape sequence",
  Shorthand |-> "shorthand",
  SmartQuote |-> "smart quote",
  Strong |-> "strong content",
  Emph |-> "emphasized content",
  Raw |-> "raw block",
  RawLang |-> "raw language tag",
  RawTrimmed |-> "raw trimmed",
  RawDelim |-> "raw delimiter",
  Link |-> "link",
  Label |-> "label",
  Ref |-> "reference",
  RefMarker |-> "reference marker",
  Heading |-> "heading",
  HeadingMarker |-> "heading marker",
  ListItem |-> "list item",
  ListMarker |-> "list marker",
  EnumItem |-> "enum item",
  EnumMarker |-> "enum marker",
  TermItem |-> "term list item",
  TermMarker |-> "term marker",
  Equation |-> "equation",
  Math |-> "math",
  MathText |-> "math text",
  MathIdent |-> "math identifier",
  MathShorthand |-> "math shorthand",
  MathAlignPoint |-> "math alignment point",
  MathDelimited |-> "delimited math",
  MathAttach |-> "math attachments",
  MathFrac |-> "math fraction",
  MathRoot |-> "math root",
  MathPrimes |-> "math primes",
  Hash |-> "hash",
  LeftBrace |-> "opening brace",
  RightBrace |-> "closing brace",
  LeftBracket |-> "opening bracket",
  RightBracket |-> "closing bracket",
  LeftParen |-> "opening paren",
  RightParen |-> "closing paren",
  Comma |-> "comma",
  Semicolon |-> "semicolon",
  Colon |-> "colon",
  Star |-> "star",
  Underscore |-> "underscore",
  Dollar |-> "dollar sign",
  Plus |-> "plus",
  Minus |-> "minus",
  Slash |-> "slash",
  Hat |-> "hat",
  Prime |-> "prime",
  Dot |-> "dot",
  Eq |-> "equals sign",
  EqEq |-> "equality operator",
  ExclEq |-> "inequality operator",
  Lt |-> "less-than operator",
  LtEq |-> "less-than or equal operator",
  Gt |-> "greater-than operator",
  GtEq |-> "greater-than or equal operator",
  PlusEq |-> "add-assign operator",
  HyphEq |-> "subtract-assign operator",
  StarEq |-> "multiply-assign operator",
  SlashEq |-> "divide-assign operator",
  Dots |-> "dots",
  Arrow |-> "arrow",
  Root |-> "root",
  Not |-> "operator `not`",
  And |-> "operator `and`",
  Or |-> "operator `or`",
  None |-> "`none`",
  Auto |-> "`auto`",
  Let |-> "keyword `let`",
  Set |-> "keyword `set`",
  Show |-> "keyword `show`",
  Context |-> "keyword `context`",
  If |-> "keyword `if`",
  Else |-> "keyword `else`",
  For |-> "keyword `for`",
  In |-> "keyword `in`",
  While |-> "keyword `while`",
  Break |-> "keyword `break`",
  Continue |-> "keyword `continue`",
  Return |-> "keyword `return`",
  Import |-> "keyword `import`",
  Include |-> "keyword `include`",
  As |-> "keyword `as`",
  Code |-> "code",
  Ident |-> "identifier",
  Bool |-> "boolean",
  Int |-> "integer",
  Float |-> "float",
  Numeric |-> "numeric value",
  Str |-> "string",
  CodeBlock |-> "code block",
  ContentBlock |-> "content block",
  Parenthesized |-> "group",
  Array |-> "array",
  Dict |-> "dictionary",
  Named |-> "named pair",
  Keyed |-> "keyed pair",
  Unary |-> "unary expression",
  Binary |-> "binary expression",
  FieldAccess |-> "field access",
  FuncCall |-> "function call",
  Args |-> "call arguments",
  Spread |-> "spread",
  Closure |-> "closure",
  Params |-> "closure parameters",
  LetBinding |-> "`let` expression",
  SetRule |-> "`set` expression",
  ShowRule |-> "`show` expression",
  Contextual |-> "`context` expression",
  Conditional |-> "`if` expression",
  WhileLoop |-> "while-loop expression",
  ForLoop |-> "for-loop expression",
  ModuleImport |-> "`import` expression",
  ImportItems |-> "import items",
  ImportItemPath |-> "imported item path",
  RenamedImportItem |-> "renamed import item",
  ModuleInclude |-> "`include` expression",
  LoopBreak |-> "`break` expression",
  LoopContinue |-> "`continue` expression",
  FuncReturn |-> "`return` expression",
  Destructuring |-> "destructuring pattern",
  DestructAssignment |-> "destructuring assignment expression"]
KindName(k) == NameTable[k]
Kind == DOMAIN NameTable
=============================================================================
