package syntax

// Names of the kinds as used in the specification (spec/Kinds.tla).
var vKindName = map[SyntaxKind]string{
	SyntaxKindEnd:                "End",
	SyntaxKindError:              "Error",
	SyntaxKindShebang:            "Shebang",
	SyntaxKindLineComment:        "LineComment",
	SyntaxKindBlockComment:       "BlockComment",
	SyntaxKindMarkup:             "Markup",
	SyntaxKindText:               "Text",
	SyntaxKindSpace:              "Space",
	SyntaxKindLinebreak:          "Linebreak",
	SyntaxKindParbreak:           "Parbreak",
	SyntaxKindEscape:             "Escape",
	SyntaxKindShorthand:          "Shorthand",
	SyntaxKindSmartQuote:         "SmartQuote",
	SyntaxKindStrong:             "Strong",
	SyntaxKindEmph:               "Emph",
	SyntaxKindRaw:                "Raw",
	SyntaxKindRawLang:            "RawLang",
	SyntaxKindRawDelim:           "RawDelim",
	SyntaxKindRawTrimmed:         "RawTrimmed",
	SyntaxKindLink:               "Link",
	SyntaxKindLabel:              "Label",
	SyntaxKindRef:                "Ref",
	SyntaxKindRefMarker:          "RefMarker",
	SyntaxKindHeading:            "Heading",
	SyntaxKindHeadingMarker:      "HeadingMarker",
	SyntaxKindListItem:           "ListItem",
	SyntaxKindListMarker:         "ListMarker",
	SyntaxKindEnumItem:           "EnumItem",
	SyntaxKindEnumMarker:         "EnumMarker",
	SyntaxKindTermItem:           "TermItem",
	SyntaxKindTermMarker:         "TermMarker",
	SyntaxKindEquation:           "Equation",
	SyntaxKindMath:               "Math",
	SyntaxKindMathText:           "MathText",
	SyntaxKindMathIdent:          "MathIdent",
	SyntaxKindMathShorthand:      "MathShorthand",
	SyntaxKindMathAlignPoint:     "MathAlignPoint",
	SyntaxKindMathDelimited:      "MathDelimited",
	SyntaxKindMathAttach:         "MathAttach",
	SyntaxKindMathPrimes:         "MathPrimes",
	SyntaxKindMathFrac:           "MathFrac",
	SyntaxKindMathRoot:           "MathRoot",
	SyntaxKindHash:               "Hash",
	SyntaxKindLeftBrace:          "LeftBrace",
	SyntaxKindRightBrace:         "RightBrace",
	SyntaxKindLeftBracket:        "LeftBracket",
	SyntaxKindRightBracket:       "RightBracket",
	SyntaxKindLeftParen:          "LeftParen",
	SyntaxKindRightParen:         "RightParen",
	SyntaxKindComma:              "Comma",
	SyntaxKindSemicolon:          "Semicolon",
	SyntaxKindColon:              "Colon",
	SyntaxKindStar:               "Star",
	SyntaxKindUnderscore:         "Underscore",
	SyntaxKindDollar:             "Dollar",
	SyntaxKindPlus:               "Plus",
	SyntaxKindMinus:              "Minus",
	SyntaxKindSlash:              "Slash",
	SyntaxKindHat:                "Hat",
	SyntaxKindPrime:              "Prime",
	SyntaxKindDot:                "Dot",
	SyntaxKindEq:                 "Eq",
	SyntaxKindEqEq:               "EqEq",
	SyntaxKindExclEq:             "ExclEq",
	SyntaxKindLt:                 "Lt",
	SyntaxKindLtEq:               "LtEq",
	SyntaxKindGt:                 "Gt",
	SyntaxKindGtEq:               "GtEq",
	SyntaxKindPlusEq:             "PlusEq",
	SyntaxKindHyphEq:             "HyphEq",
	SyntaxKindStarEq:             "StarEq",
	SyntaxKindSlashEq:            "SlashEq",
	SyntaxKindDots:               "Dots",
	SyntaxKindArrow:              "Arrow",
	SyntaxKindRoot:               "Root",
	SyntaxKindNot:                "Not",
	SyntaxKindAnd:                "And",
	SyntaxKindOr:                 "Or",
	SyntaxKindNone:               "None",
	SyntaxKindAuto:               "Auto",
	SyntaxKindLet:                "Let",
	SyntaxKindSet:                "Set",
	SyntaxKindShow:               "Show",
	SyntaxKindContext:            "Context",
	SyntaxKindIf:                 "If",
	SyntaxKindElse:               "Else",
	SyntaxKindFor:                "For",
	SyntaxKindIn:                 "In",
	SyntaxKindWhile:              "While",
	SyntaxKindBreak:              "Break",
	SyntaxKindContinue:           "Continue",
	SyntaxKindReturn:             "Return",
	SyntaxKindImport:             "Import",
	SyntaxKindInclude:            "Include",
	SyntaxKindAs:                 "As",
	SyntaxKindCode:               "Code",
	SyntaxKindIdent:              "Ident",
	SyntaxKindBool:               "Bool",
	SyntaxKindInt:                "Int",
	SyntaxKindFloat:              "Float",
	SyntaxKindNumeric:            "Numeric",
	SyntaxKindStr:                "Str",
	SyntaxKindCodeBlock:          "CodeBlock",
	SyntaxKindContentBlock:       "ContentBlock",
	SyntaxKindParenthesized:      "Parenthesized",
	SyntaxKindArray:              "Array",
	SyntaxKindDict:               "Dict",
	SyntaxKindNamed:              "Named",
	SyntaxKindKeyed:              "Keyed",
	SyntaxKindUnary:              "Unary",
	SyntaxKindBinary:             "Binary",
	SyntaxKindFieldAccess:        "FieldAccess",
	SyntaxKindFuncCall:           "FuncCall",
	SyntaxKindArgs:               "Args",
	SyntaxKindSpread:             "Spread",
	SyntaxKindClosure:            "Closure",
	SyntaxKindParams:             "Params",
	SyntaxKindLetBinding:         "LetBinding",
	SyntaxKindSetRule:            "SetRule",
	SyntaxKindShowRule:           "ShowRule",
	SyntaxKindContextual:         "Contextual",
	SyntaxKindConditional:        "Conditional",
	SyntaxKindWhileLoop:          "WhileLoop",
	SyntaxKindForLoop:            "ForLoop",
	SyntaxKindModuleImport:       "ModuleImport",
	SyntaxKindImportItems:        "ImportItems",
	SyntaxKindImportItemPath:     "ImportItemPath",
	SyntaxKindRenamedImportItem:  "RenamedImportItem",
	SyntaxKindModuleInclude:      "ModuleInclude",
	SyntaxKindLoopBreak:          "LoopBreak",
	SyntaxKindLoopContinue:       "LoopContinue",
	SyntaxKindFuncReturn:         "FuncReturn",
	SyntaxKindDestructuring:      "Destructuring",
	SyntaxKindDestructAssignment: "DestructAssignment",
}
