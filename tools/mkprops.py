#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the single source is the table below)."""
import json, os
S='typst/syntax/'
P=[]
def prop(id,title,statement,over,q,why,files,mech,state=(),observe=(),hook=None):
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":q},"why_tests_cant":why,
      "anchors":{"files":files,
        "mechanism":[{"name":n,"where":w} for n,w in mech],
        **({"state":[{"name":n,"meaning":m,"where":w} for n,m,w in state]} if state else {}),
        **({"observe_at":list(observe)} if observe else {}),
        "hook_needed":hook}})

prop("P01","Parsing is lossless",
 "For every source text, concatenating the text of the leaves and error nodes of the parsed syntax tree in order yields exactly the source text, byte for byte. Every node's reported byte length equals the length of the text it covers, and this also holds for source that contains syntax errors.",
 ["inputs"],"All valid UTF-8 source texts in markup, code and math syntax, well-formed or not.",
 "The tests compare the round trip on one sample text; losing or inventing bytes depends on which error conversion, wrap or backtracking path a particular input takes.",
 [S+"parser.go",S+"lexer.go",S+"node.go"],
 [("lexer consumes every byte into exactly one token",S+"lexer.go Lexer.next"),("nodes wrap contiguous token runs",S+"parser.go Parser.wrap_within"),("error conversion keeps the text",S+"node.go SyntaxNode.convert_to_error")],
 observe=["Parse + PrintNode","cmd/parse-typ"])
prop("P02","Parsing always terminates without crashing, with bounded work",
 "Parsing any source text returns a tree; it never crashes, hangs or exhausts memory. Work never grows exponentially with nesting depth, under deeply nested or unbalanced delimiters and on inputs that force the parser to backtrack between alternative readings of the same parentheses.",
 ["inputs"],"All valid UTF-8 source texts, including arbitrarily unbalanced or truncated ones.",
 "Termination and absence of panics quantify over all inputs; the existing tests parse about twenty hand-picked snippets, none of them truncated mid-construct or deeply nested.",
 [S+"parser.go",S+"lexer.go","internal/scanner/scanner.go","internal/stdx/stdx.go"],
 [("every parse loop makes progress or reports an unexpected token",S+"parser.go"),("memoised backtracking for parenthesised expressions",S+"parser.go expr_with_paren / memo"),("scanner keeps cursor on character boundaries","internal/scanner/scanner.go")],
 observe=["Parse","ParseCode","cmd/parse-typ exit status"])
prop("P03","Tokens follow Typst's lexical grammar",
 "In markup, in code and in math, every source text is split into the tokens (kind and extent) that Typst's lexical grammar prescribes: longest-match operators and numbers, comments, strings, escapes, raw blocks, labels, references, links, list markers, line breaks and whitespace classification. A lexically malformed token is reported as an error covering exactly the malformed text.",
 ["inputs"],"All valid UTF-8 texts; all three lexing modes.",
 "No test looks at tokens at all; each rule depends on one or two characters of look-ahead that only particular inputs exercise (end of input, repeated newlines, sign characters, multi-byte characters).",
 [S+"lexer.go",S+"kind.go","internal/scanner/scanner.go","internal/stdx/stdx.go"],
 [("mode-specific token functions",S+"lexer.go Lexer.markup / Lexer.code"),("single-character and set-based look-ahead","internal/scanner/scanner.go")],
 observe=["leaf kinds and texts of Parse/ParseCode"])
prop("P04","Markup structure follows Typst's markup grammar",
 "The tree built for markup assigns headings, list/enum/term items, strong and emphasised content, references, content blocks and embedded code exactly the extent and nesting that Typst's markup grammar prescribes, including indentation-delimited item bodies, line-start-only markers, balanced brackets and termination at paragraph breaks.",
 ["inputs"],"All markup texts, arbitrary nesting, indentation and newline placement.",
 "Structure depends on the combination of indentation, newline kind, position-on-line and enclosing construct; tests cover none of the list or indentation rules.",
 [S+"parser.go",S+"lexer.go",S+"set.go"],
 [("markup expression dispatch and at-start tracking",S+"parser.go markup_exprs, markup_expr"),("column/indent based newline mode",S+"parser.go AtNewline / with_nl_mode")],
 observe=["Parse"])
prop("P05","Code structure follows Typst's expression grammar",
 "Expressions are grouped according to Typst's operator precedence and associativity, and calls, field accesses, closures, destructuring, argument lists, collections, conditionals, loops, set/show/import/include rules and blocks get exactly the structure the code grammar prescribes. Newlines and semicolons end statements precisely where the enclosing construct says they do.",
 ["inputs"],"All token sequences of code syntax embedded in markup (after #) or parsed as code; any nesting of parentheses, braces and brackets.",
 "Precedence, newline continuation and backtracking between group/array/dict/parameters interact combinatorially; tests only parse a handful of expressions and never check operator grouping.",
 [S+"parser.go",S+"set.go",S+"ast.go"],
 [("precedence climbing",S+"parser.go code_expr_prec"),("backtracking for parentheses",S+"parser.go expr_with_paren"),("newline modes",S+"parser.go AtNewline"),("first sets",S+"set.go")],
 observe=["Parse","ParseCode"])
prop("P06","Syntax errors are reported exactly when and where the grammar says",
 "A source text that is valid Typst parses without any error node, and an invalid one yields at least one error. Every error node carries the offending text and the message (with hint where one is defined) for what was expected or unexpected there, every ancestor of an error is flagged as containing one, and parsing recovers so that the rest of the source keeps its structure.",
 ["inputs"],"All texts; in particular every single-token deletion, insertion or truncation of valid programs.",
 "A test can show that one malformed text gives one error; absence of spurious errors and of missed errors quantifies over the whole language and its complement.",
 [S+"parser.go",S+"node.go",S+"lexer.go"],
 [("expected/unexpected conversions",S+"parser.go expect, expected, unexpected, trim_errors"),("erroneous flag",S+"node.go InnerNode.Erroneous")],
 observe=["Parse and the error list of the root"])
prop("P07","Math structure follows Typst's math grammar",
 "Within equations, scripts, fractions, roots, primes, factorials and function calls bind as Typst's math grammar prescribes, delimiters match by the class of their characters, parentheses that only group the operand of a fraction, script or root are not part of what is typeset, and call arguments are split into positional, named, spread and row-wise (semicolon) arguments. Code embedded in math and math embedded in code end exactly where the grammar says, and malformed math yields the errors it prescribes.",
 ["inputs"],"All texts with equations, any nesting of math, code and markup; characters by their Unicode math class.",
 "The tests hold a few formulas; what binds to what depends on spaces, on character classes and on the operators to the left and right, and on a parser state switched at every transition between math, code and markup.",
 [S+"parser.go",S+"lexer.go",S+"set.go","internal/stdx/stdx.go"],
 [("operators of math by precedence",S+"parser.go math_expr_prec / math_op"),("delimiters by character class",S+"parser.go maybe_delimited, math_class"),("grouping parentheses",S+"parser.go math_unparen"),("arguments",S+"parser.go math_args / math_arg"),("math tokens",S+"lexer.go Lexer.math")],
 observe=["Parse"])
prop("E01","Incremental reparse equals a full parse",
 "After any sequence of text edits applied to an open source file (given as a range and its replacement, or as the whole new text), its syntax tree equals the tree obtained by parsing the current text from scratch, apart from the node identities.",
 ["histories","inputs"],"All initial texts and all finite histories of range replacements on character boundaries.",
 "Each test makes a single edit to a fresh file; the property is about every edit position in every tree shape and about histories in which earlier incremental results are reused.",
 [S+"reparser.go",S+"parser.go",S+"node.go",S+"source.go"],
 [("locate smallest reparsable node",S+"reparser.go try_reparse"),("at-start and nesting must match after the segment",S+"reparser.go try_reparse"),("splice children and update ancestors",S+"node.go replace_children, update_parent")],
 observe=["Source.Edit, Source.Replace then Source.Root"])
prop("E02","An edit's reported range covers the change and leaves the rest untouched",
 "An edit returns a range of the new text that contains all inserted text and the position of the deletion. Syntax nodes that lie wholly outside that range keep their kind and text, and an edit confined to one block or a few markup expressions reparses that neighbourhood instead of the whole file.",
 ["histories","inputs"],"All edits in all reachable trees.",
 "The returned range is only compared for a few single edits; incremental success silently degraded to full reparses would pass the tests that do not check it.",
 [S+"reparser.go",S+"source.go",S+"node.go"],
 [("range bookkeeping",S+"reparser.go try_reparse"),("child replacement",S+"node.go replace_children")],
 observe=["return value of Source.Edit","Source.Root"])
prop("E03","Spans identify nodes uniquely, in document order, through all edits",
 "After creating a source file and after every subsequent edit, all nodes carry distinct span numbers that grow in pre-order, belong to the file and stay within their parent's interval, so that looking a span up yields exactly its node and byte range. Node sizes, descendant counts and error flags recorded in the tree stay equal to their recomputed values, and nodes outside the edited region keep their spans unless renumbering is needed to make room.",
 ["histories","inputs"],"All edit histories, including ones long or localised enough to exhaust the gap between neighbouring numbers.",
 "Gaps are 2^47 wide, so the interesting renumbering steps only occur after adversarial histories; no test looks at a span inside a tree at all.",
 [S+"node.go",S+"reparser.go",S+"source.go",S+"span.go"],
 [("stride-based numbering",S+"node.go numberize"),("exponential widening when a gap is exhausted",S+"node.go replace_children"),("pruned search",S+"node.go LinkedNode.find")],
 observe=["Source.Find, Source.Range"])
prop("E04","Span encoding is a bijection on its documented domain",
 "A span built from a file and a number, or from a file and a byte range, yields back the same file, number or range; detached, numbered and raw-range spans are never confused with each other. Numbers outside the documented range are rejected, and byte positions too large to represent are clamped to the largest representable value without disturbing the other end of the range or the file.",
 ["inputs"],"All file ids 1..65535, all numbers 0..2^48-1, all byte ranges.",
 "Packing bugs live at field boundaries; tests check three constants.",
 [S+"span.go"],[("bit packing",S+"span.go NewSpanPacked, NewSpanFromRange, RawRange")],observe=["Span API"])
prop("X01","The line index always matches the text",
 "After any sequence of edits and replacements the line table (number of lines, each line's byte and UTF-16 start) is the one obtained by indexing the current text from scratch. LF, CR, CRLF and the Unicode line terminators each end one line, and CRLF counts as one terminator even when an edit joins or splits it.",
 ["histories","inputs"],"All texts over 1-4 byte characters and all newline kinds, all edit histories.",
 "Table maintenance is incremental; only particular edits (between CR and LF, at line starts, with astral characters) exercise the special cases.",
 [S+"lines.go"],[("truncate and recompute suffix",S+"lines.go Lines.Edit"),("line scan",S+"lines.go linesFrom")],
 state=[("line table","byte and UTF-16 offset of every line start",S+"lines.go Lines.Lines")],observe=["Lines API","Source.Lines"])
prop("X02","Position conversions agree with the text and with each other",
 "For every character boundary, conversion between byte offset, UTF-16 offset, and line/column gives the value determined by the text, and each conversion is inverted exactly by its counterpart. Out-of-range positions are reported as such and never produce an offset outside the text or line.",
 ["inputs","histories"],"All texts, all offsets and (line, column) pairs, in and out of range, on freshly indexed and on edited texts.",
 "Tests probe one sample text at a few offsets.",
 [S+"lines.go"],[("binary search over line starts",S+"lines.go ByteToLine, Utf16ToByte"),("column counting",S+"lines.go ByteToColumn, LineColumnToByte")],observe=["Lines API"])
prop("X03","Replacing the text yields exactly the new text with a minimal edit",
 "Replacing a file's whole text leaves exactly the requested text and line table, reports no change only when the texts are equal, and touches only the span between the longest common prefix and suffix, on character boundaries.",
 ["inputs","histories"],"All pairs of texts, including ones whose characters share leading or trailing bytes or whose common prefix and suffix overlap.",
 "Only one-line sample replacements are tested; the prefix/suffix computation goes wrong for particular byte coincidences.",
 [S+"lines.go",S+"source.go"],[("prefix/suffix diff",S+"lines.go ReplacementRange")],observe=["Lines.Replace","Source.Replace"])
prop("N01","Tree navigation visits the right nodes at the right offsets",
 "Walking a parsed tree by children (forwards or backwards), parent, sibling or leaf reaches exactly the nodes the tree and the trivia-skipping rules prescribe, and every visited node reports its true byte offset. Asking for the leaf before or after a cursor returns the leaf that ends at or covers that position.",
 ["inputs","programs"],"All trees, all nodes, all cursor positions.",
 "The tests ask for a handful of leaves in four snippets; offsets obtained by backward iteration are never checked.",
 [S+"node.go"],[("offset bookkeeping of linked children",S+"node.go LinkedChildren"),("sibling and leaf accessors",S+"node.go LinkedNode")],observe=["LinkedNode API"])
prop("N02","Tree walking visits every node once in document order and honours pruning",
 "Walking a syntax tree calls the visitor on every node exactly once, parents before children and children in document order. When the visitor declines a node, exactly that node's descendants are skipped.",
 ["inputs","programs"],"All trees and all visitor decisions.",
 "The walker has no tests; the tools that rewrite imports rely on it finding every import.",
 ["typst/cstwalk/cstwalk.go"],[("recursive walk","typst/cstwalk/cstwalk.go Walk")],observe=["cstwalk.Walk"])
prop("N03","Highlighting preserves the text and classifies by context",
 "Rendering a tree as highlighted HTML yields, once tags are removed and entities decoded, exactly the source text, with properly nested tags. Every token gets the highlight category that its kind and syntactic context (function call, parameter, set/show target, heading, list marker, interpolation) prescribes, and highlighting never crashes.",
 ["inputs"],"All trees, including erroneous ones.",
 "Tests check a dozen ranges in nine snippets; context rules (who is a function name, what a hash belongs to) depend on siblings and parents in arbitrary trees.",
 [S+"highlight.go",S+"node.go"],[("kind/context dispatch",S+"highlight.go highlight, highlight_ident, highlight_hash"),("HTML rendering",S+"highlight.go highlight_html_impl")],observe=["highlight functions"])
prop("A01","The typed view of a tree exposes each construct's parts",
 "Every node of a parsed tree converts to the typed construct of its kind and to no other, and to an expression, pattern, argument, parameter, array, dictionary or destructuring item exactly where one of its kind may stand. The accessors of a well-formed construct return exactly its parts in the text (callee, arguments, operands and operator, condition, bodies, patterns and the names they bind, import sources, items and names, and so on), wherever white space or comments stand, and never crash on malformed ones.",
 ["inputs","programs"],"All trees of parsed texts, all nodes and all accessors.",
 "No test uses the typed view; a part is found by counting or searching children, which goes wrong for particular trivia, optional parts or kinds.",
 [S+"ast.go"],[("conversions",S+"ast.go SyntaxNode_cast, SyntaxNode_is, from_untyped"),("accessors of the constructs",S+"ast.go")],observe=["accessors of the typed AST nodes"])
prop("A02","Literals and markers have the values they denote",
 "The typed view of a literal gives the value its text denotes: integers in every base, floating-point numbers, numbers with units, strings and character escapes with their escape sequences resolved, shorthands, smart quotes, labels, links, raw text (lines, language, whether it is a block), heading depths and enumeration numbers.",
 ["inputs"],"All literals of parsed texts (integers that fit 64 bits).",
 "No test reads a literal's value; each base, unit, escape and exponent form is a separate case.",
 [S+"ast.go"],[("values of literals",S+"ast.go get methods of Int, Float, Numeric, Str, Escape, Shorthand, Raw, Heading, EnumItem")],observe=["get methods of the typed AST nodes"])
prop("F01","File identities are interned",
 "Creating a file identity twice for the same package and path yields the same identity, different packages or paths yield different identities, and an identity always resolves to the package and path it was created with. Identities created as unique never coincide with any other. This holds under concurrent use.",
 ["histories","schedules"],"All sequences and interleavings of identity creation and lookup by any number of goroutines.",
 "There is no test of identity interning; sharing and races only show over histories and schedules.",
 [S+"file.go"],[("global interner under a read-write lock",S+"file.go Interner, NewFileID, pushPair")],
 state=[("interner","bijection between identities and (package, path)",S+"file.go interner")],observe=["FileID API"])
prop("F02","Virtual paths are absolute, normalised and joined relative to the file",
 "A virtual path always starts at the root and contains no empty, dot or resolvable parent components. Resolving a path against a file replaces the file's last component by the given relative path, or starts from the root when the given path is absolute, and changing the extension replaces only the last extension of the file name.",
 ["inputs"],"All path strings and all sequences of join and extension operations.",
 "No test exists for paths; dot segments, absolute arguments and dotted directory names need specific inputs.",
 [S+"path.go",S+"file.go"],[("path construction and join",S+"path.go NewVirtualPath, Join, WithExtension")],observe=["VirtualPath API","FileID.Join"])
prop("K01","Package specifications and versions parse, print, order and match consistently",
 "A package specification or version is accepted exactly when it has the documented form, printing a parsed one gives the original text (up to leading zeros of its version numbers) and parsing a printed one gives an equal value. Version comparison is the lexicographic total order on major, minor, patch, and a version bound matches exactly the versions that agree with it (or compare accordingly) on the components the bound gives.",
 ["inputs"],"All strings; all versions and bounds.",
 "Tests parse eight strings and compare a few bounds.",
 [S+"package.go"],[("specification scanner",S+"package.go ParsePackageSpec"),("version and bound comparison",S+"package.go PackageVersion, VersionBound")],observe=["PackageSpec, PackageVersion, VersionBound API"])
prop("U01","Updating imports changes nothing but the package versions it should",
 "Updating a file rewrites the path of each package import and include (a literal string, possibly in parentheses) to the latest installed version of that package in its namespace and leaves every other byte of the file unchanged, whatever else the file contains. An import of a version at least as new as every installed one keeps it; updating again changes nothing, and no import is ever moved to an older or uninstalled version.",
 ["inputs","configurations"],"All source files and all sets of installed packages and versions.",
 "The command has no tests; outcome depends on which versions are installed and where in the syntax tree the import occurs.",
 ["cmd/update-typ/main.go","typst/cstwalk/cstwalk.go"],[("import collection and rewriting","cmd/update-typ/main.go"),("latest version lookup","cmd/update-typ/main.go latestSpec, findVersions")],observe=["cmd/update-typ output"])
prop("U02","Updating visits the whole import closure, terminates and fails cleanly",
 "Updating rewrites every file of the project reachable from the given one through local imports and includes and no other file, examines the packages they use, transitively, and reports each outdated import found in a package and each import it rewrites; it terminates on import cycles. If an imported file or package does not exist, or a package has no usable manifest, it reports that and fails without crashing, and then every file is either updated or unchanged.",
 ["inputs","configurations","histories"],"All import graphs over project files and packages, including cyclic and dangling ones.",
 "No tests; cycles, missing targets and malformed imports need specific project layouts.",
 ["cmd/update-typ/main.go"],[("work list of files","cmd/update-typ/main.go"),("library checks","cmd/update-typ/main.go")],observe=["cmd/update-typ exit status, output and file system"])
prop("O01","Offline bundles are closed: every rewritten import resolves inside the bundle",
 "After making a document available offline, every package it imports or includes, directly or transitively, is in the bundle at libs/<name>/<version> where the rewritten imports point to, every local file imported or included, and every file loaded by a literal path with image, plugin, read, csv, json, toml, yaml, xml, cbor or bibliography (sources and style), is at the corresponding place (for files of packages: below the place of the package), and following the references of the bundled main file never leaves the bundle. If something used does not exist or two things need the same place, bundling fails with an error, without crashing.",
 ["inputs","configurations"],"All projects: import graphs over local files and packages, nested packages, resources, cycles.",
 "The command has no tests; closure is a reachability property over arbitrary graphs.",
 ["cmd/offline-typ/main.go"],[("recursive translation of imports","cmd/offline-typ/main.go"),("package vendoring","cmd/offline-typ/main.go copyDir"),("resource collection","cmd/offline-typ/main.go")],observe=["cmd/offline-typ output directory"])
prop("O02","Offline bundling preserves every file except package import paths",
 "Each bundled source file equals the original byte for byte except that package import paths are replaced by the place of the vendored package's entry point (an import of a whole package keeping the name of the module) and, in files of packages, paths relative to the package's root by the corresponding place in the bundle. Every other bundled file, and every file of the font directories given, is an exact copy. Bundling again gives the same bundle.",
 ["inputs","configurations"],"All source files and resources, including erroneous sources and unusual import forms.",
 "No tests; depends on arbitrary file content.",
 ["cmd/offline-typ/main.go",S+"node.go"],[("in-place rewriting of import nodes","cmd/offline-typ/main.go"),("tree printing",S+"node.go PrintNode")],observe=["cmd/offline-typ output directory"])
prop("O03","Offline bundling writes only inside the output directory",
 "Whatever paths occur in the document, bundling creates or changes files only inside the chosen output directory and never modifies the original project, the package store or anything outside them.",
 ["inputs","configurations"],"All documents, including ones whose imports and resources contain parent segments, absolute paths or links.",
 "No tests; needs adversarial paths.",
 ["cmd/offline-typ/main.go"],[("rooted file access","cmd/offline-typ/main.go")],observe=["file system outside the output directory"])
prop("B01","The scanner moves over whole characters and yields exactly the text it spans",
 "The string scanner's cursor always stands on a character boundary inside the string, whatever sequence of operations is applied: eating, uneating, jumping (also into the middle of a character or past the ends), eating while, until or if a pattern (character, string, predicate or set) matches, and restoring a position. Every operation returns exactly the text (or character) between the old and new cursor, peeking and scouting relative to the cursor read whole characters and move nothing, and before, after, from, to and get partition the string.",
 ["histories","inputs"],"All strings (including empty ones, several-byte characters) and all sequences of operations.",
 "The scanner has no tests; snapping to boundaries, empty remainders and offsets of zero or beyond an end need specific cursor positions in multi-byte text.",
 ["internal/scanner/scanner.go"],[("cursor operations","internal/scanner/scanner.go Scanner"),("patterns","internal/scanner/scanner.go pattern matching")],state=[("cursor","a byte position on a character boundary","internal/scanner/scanner.go Scanner.cursor")],observe=["scanner API"])
prop("B02","Kind sets are values; predefined sets, classes and names fit the grammar",
 "A set of syntax kinds contains exactly the kinds added to it, adding and uniting give new sets and never change the operands, whatever the order and number of operations. Each predefined set contains exactly the kinds that can begin (or be) the construct it is named for; trivia, keywords, groupings, terminators, statements and errors are classified exactly as the grammar has them, and every kind has a name of its own.",
 ["histories","inputs"],"All sequences of set operations over all kinds; all kinds.",
 "One test samples two memberships; kinds above the width of a machine word, and each predefined set, are separate cases.",
 [S+"set.go",S+"kind.go"],[("bit sets",S+"set.go SyntaxSet"),("classification of kinds",S+"kind.go")],observe=["SyntaxSet and SyntaxKind API"])
prop("T01","Syntax trees are values: operations keep their invariants and affect no other",
 "However trees are built, converted to errors, given hints, numbered, given synthesized spans, or have children replaced and parents updated, a node's length, number of descendants and erroneousness are those of its contents, numbering stays ordered inside the interval of the parent, and a clone is independent of its original. Two trees are equal without spans exactly when they differ in nothing but spans (kinds, texts, errors and hints agree). All errors are listed in order, as copies; a numbering or replacement that fails reports it and changes nothing.",
 ["histories"],"All sequences of tree operations.",
 "Tests build trees only by parsing; sharing and stale counters only show over histories of operations on clones.",
 [S+"node.go",S+"span.go"],[("nodes",S+"node.go SyntaxNode, LeafNode, InnerNode, ErrorNode"),("numbering and replacement",S+"node.go numberize, replace_children, update_parent")],observe=["SyntaxNode API"])
prop("K02","Manifests are read exactly and validated against the package asked for",
 "Reading a manifest succeeds exactly when it is well-formed TOML with a package name, version and entry point (and, for templates, path and entry point) of the right types, and gives exactly the values written, whatever other fields occur; missing optional fields stay empty. Validating a manifest against a package specification succeeds exactly when name and version agree and the required compiler version does not exceed the supported one.",
 ["inputs","configurations"],"All manifests and package specifications.",
 "No test reads a manifest; each missing, mistyped or mismatched field is a separate case.",
 [S+"package.go"],[("decoding of manifests",S+"package.go PackageManifest, PackageInfo, TemplateInfo"),("validation",S+"package.go Validate")],observe=["PackageManifest API"])
prop("C01","parse-typ prints the syntax tree of every file",
 "Given any files, parse-typ prints, for each in order, its syntax tree: one line per node in document order, indented by its depth, giving its kind and, for a leaf, its text, or for an error its text and message. A file that cannot be read makes it fail after the trees of the files before it are printed; it never crashes.",
 ["inputs","configurations"],"All lists of files, including empty, erroneous, missing and unreadable ones.",
 "The command has no tests.",
 ["cmd/parse-typ/main.go",S+"node.go"],[("file loop","cmd/parse-typ/main.go"),("tree printing",S+"node.go")],observe=["cmd/parse-typ output and exit status"])
prop("C02","Commands place the file below the project root or refuse it",
 "update-typ and offline-typ, given one file and optionally a project root, however both are spelled (relative to the working directory or absolute, with repeated slashes, `.` and `..`), process the file exactly when it lies below the root, by default its own directory: then it and the files it refers to appear at their places relative to the root, below the output directory or in place. A file that is not below the root, or any other number of files, makes them fail without changing any file.",
 ["inputs","configurations"],"All spellings of working directory, root and file, including the root directory `/`.",
 "The commands have no tests; spellings and prefixes of names combine in many ways.",
 ["cmd/update-typ/main.go","cmd/offline-typ/main.go"],[("root and file","cmd/update-typ/main.go main, stripPrefix"),("root and file","cmd/offline-typ/main.go main, stripPrefix")],observe=["files written, exit status"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P:
        assert len(p['title'])<=80,p['title']
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
