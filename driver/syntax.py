"""P01..P06: lexer and parser.

Every check lets TLC enumerate texts (and the tokens or trees the
specification prescribes for them) and replays each into the real code."""
import json, os, re
import gen
from common import cps, utext, CheckError

HF = ["syntax/main", "syntax/kinds", "syntax/parse"]
PKG = "typst/syntax"

NONASCII = [chr(x) for x in (233, 223, 945, 20013, 12354, 12450, 54620, 119987, 128512, 769, 8232, 8233, 133,
                             160, 12288, 65533, 8722, 189, 8551, 178, 183, 1635, 8364, 65279,
                             8730, 8731, 8732, 10216, 10217, 9136, 9137, 10181, 10182, 9398, 8203)]
ASCII = [chr(i) for i in range(128)]
CHARS = ASCII + NONASCII

ASSUME = [
    "texts are valid UTF-8; beyond ASCII they use 35 representatives, one or more per combination of character "
    "classes the grammar distinguishes",
    "the module holding the Unicode math classes is absent from this sandbox; the checks build the code with a table of the "
    "classes of the characters they use (harness/mathclass), taken from the Unicode data file",
]

INV = ("Lossless", "TreeSound", "LineStartOnly", "Grouped", "MathShaped", "ValidAccepted")


def fam(label, frags, seeds, ops=("type",), steps=0, mode="Markup", added=None, valid=False):
    """A family of documents: what they start from and how they change."""
    allf = list(dict.fromkeys(list(frags) + [p for s in seeds for p in s]))
    ix = {p: i + 1 for i, p in enumerate(allf)}
    return {"label": label, "frags": [cps(f) for f in allf], "seeds": [[ix[p] for p in s] for s in seeds],
            "ops": list(ops) or ["none"], "steps": steps, "mode": mode, "valid": valid,
            "added": [ix[f] for f in (added if added is not None else frags)] or [0]}


def run_syntax(c, fams, op, inv=INV, timeout=850, samples=True):
    """Enumerate documents with TLC and replay every one into the parser."""
    b = c.build_harness(PKG, HF)
    out = c.path(f"cases{c.n_runs}.ndjson")
    n = c.tlc("Syntax", invariants=list(inv) + ["Emit"], view="View", cfgdata={"fams": fams}, emit=out,
              label=", ".join(f["label"] for f in fams), timeout=timeout)
    if n == 0:
        raise CheckError("the specification produced no behaviour")
    for o in op if isinstance(op, (list, tuple)) else [op]:
        c.cov["traces_validated_against_impl"] += c.replay(b, o, out)
    with open(out) as f:
        for i, l in enumerate(f):
            if i * 8 // n != (i - 1) * 8 // n:
                d = json.loads(l)
                c.sample({"mode": d[2], "text": utext(d[0])})
    os.remove(out)
    return n


def toks(label, seeds, frags=(), closers=(), steps=0):
    return {"label": label, "frags": [cps(f) for f in frags] or [[97]], "closers": [cps(f) for f in closers] or [[97]],
            "seeds": [cps(s) for s in dict.fromkeys(seeds)], "steps": steps}


def run_tokens(c, fams):
    b = c.build_harness(PKG, HF)
    out = c.path(f"cases{c.n_runs}.ndjson")
    n = c.tlc("TokenStream", invariants=["Tiles", "NonEmpty", "Bounded", "Resumable", "Emit"], view="View",
              cfgdata={"fams": fams}, emit=out, label=", ".join(f["label"] for f in fams), timeout=850)
    c.cov["traces_validated_against_impl"] += c.replay(b, "tokens", out)
    with open(out) as f:
        for i, l in enumerate(f):
            if i * 8 // n != (i - 1) * 8 // n:
                d = json.loads(l)
                c.sample({"mode": d[1], "text": utext(d[0])})
    os.remove(out)


# ---- alphabets -----------------------------------------------------------------
MK = ["a", "b1", " ", " ", "\n", "\n  ", "\n    ", "\n\n", "*", "_", "[", "]", "- ", "+ ", "1. ", "/ ", "= ", "== ",
      "#x", "#{", "#[", "#(", "@r", "@r[", "<l>", "`r`", "```a\n b\n```", "~", "--", "---", "...", "\"", "'", "\\",
      "\\u{41}", ":", ": ", "http://x.y", "//c\n", "/*c*/", "é", "中", "😀", "\t", "\r\n", "#let x = 1", "#f(",
      "#if x [a] else [b]", "#set text(", "#show: x", "!", "?", "=", "#", "-", "+", "/", ".", "#!", "\u2028",
      "#for x in y {", "#import \"a\": b", ";", "a.b", "#x.y", "#x[a]", "* ", "a*b", "1)", "a_", " -", "\\\n"]
CD = ["a", "b", "c.d", "_", " ", " ", "\n", "\n", "(", ")", "{", "}", "[", "]", ",", ",", ":", ";", "..", ".", "=",
      "=>", "+", "-", "*", "/", "==", "!=", "<", "<=", ">", ">=", "+=", "-=", "*=", "/=", "not", "not ", "in",
      " in ", "and", "or", "let ", "set ", "show ", "context ", "if ", "else", "for ", "while ", "break",
      "continue", "return ", "import ", "include ", "as ", "none", "auto", "true", "1", "2.5", "0x1f", "1pt", "3%",
      "\"s\"", "\"a\\n\"", "`r`", "```\nx\n```", "<l>", "//c\n", "/*c*/", "#", "@", "é", "f(", "(a) => ",
      "(a, b) = ", "x => ", "1e5", "1.", "0b12", "5foo", "\r\n", "−", "!", "\\", "'", "~", "\"", "a:", "..a"]

MT = ["a", "b", "x", "pi", "sin", "f", "f(", "mat(", "a.b", "1", "2.5", ".", "..", "...", ",", ";", ":", "!", "'", "''", "_", "^", "/", "(", ")", "(", ")",
      "[", "]", "{", "}", "|", "||", "[|", "|]", "->", "-", "+", "=", "<=", ":=", "√", "∛", "⟨", "⟩", "&", "\\", "\\\n", "\\#", "\"s\"", "\"", "#x", "#", "#(", "#{",
      "#[", "$", " ", " ", " ", "\n", "/*c*/", "//c\n", "a:", "..a", "..#a", "*", "*/", "~", "é", "Ⅷ", "中", "\u0301", "½", "٣", "α", "_:", "`", "😀", "@", "k-v:", "⎰", "⟆"]
MATH_SHORTHANDS = ["...", "-", "*", "~", "!=", ":=", "::=", "=:", "<<", "<<<", ">>", ">>>", "<=", ">=", "->", "-->", "|->", ">->", "->>", "<-", "<--", "<-<",
                   "<<-", "<->", "<-->", "~>", "~~>", "<~", "<~~", "=>", "|=>", "==>", "<==", "<=>", "<==>", "[|", "|]", "||"]
VALID_MATH = [
    "$a^2 + b^2 = c^2$", "$ sum_(i=0)^n x_i / (y + 1) $", "$f(x, y; z, w)$", "$mat(a, b; c, d; delim: \"[\", gap: #1pt)$", "$x' + y''_1^2 f'(x)$",
    "$√x + ∛(y + z) / √2$", "$[a, b) ∪ {c | d}$".replace(" ∪", " +"), "$[|a|] || b || ⟨x, y⟩$", "$vec(..#a, b,)$", "$n! / (k! (n - k)!)$",
    "$a \\ &= b \\ &= c$", "$#x.y + #f(1)[b] #{ 1 } \"text\" $", "$a.b.c(x).d$", "$f(a: x, b: y z, (c, d), [e; f])$", "$(a)/(b) (c)^(d) e_((f))$",
    "$ a -> b => c ... <==> ~ * - $", "$x_a^b_c$", "$x^a_b'!$", "$f(,;a;;b,)$", "$sin x(a)/2$", "$a(b)/c \"s\"(b)/c \\#(d)/e$", "$/* c */ a // d\n$",
    "#let f = $x$\n#f($a$, b: $b$)", "- $a$\n  $\n b\n $ c\n", "*$a$* _b $c_1$_", "#[$x$].y $1$", "$a_1/b^2/c$", "$1.5x 10 3.$", "$\\u{41} \\(a\\)$", "$#[*a*]_2$",
]
# Valid programs, the starting points of mutations.
VALID_MARKUP = [
    "= Title\n\nText *bold _both_* and `raw`.\n", "- a\n  - b\n\n    c\n- d\n+ e\n  + f\n1. g\n", "/ Term: desc\n  more\n/ T2: x\n",
    "#let f(x, y: 1, ..z) = x + y\n#f(1, y: 2)[body][more]\n", "#if a == 1 [x] else if b { y } else [z] end",
    "#for (k, v) in d { k }; rest", "#while x < 3 { x += 1 }\ntext", "#set text(size: 1pt, fill: red) if x\ntext",
    "#show heading: it => [*#it.body*]\ntext", "#show: doc => doc\nx", "#import \"a.typ\": b, c.d as e\n",
    "#import \"a.typ\" as m\nx", "#import \"a.typ\": (b, c as d,)\nx", "#include \"b.typ\"\nx", "#context { here() }\n",
    "#let (a, _, ..b, c: d) = (1, 2, 3)\n", "#{ (a, b) = (b, a); a.b = 1; return x }", "#((a, b) => a * b)(1, 2).c.d(e)",
    "#(a: 1, \"b\": 2, ..c, (d): 3)", "#(1, 2, ..a,)", "#(:) #() #(1,) #(1)", "@ref[supplement] <label> text @b.c:d",
    "a \\ b \\u{41} \\# \\* --- ~ ... -? 'q' \"p\"", "http://a.b/(c)[d] and https://x.", "// line\n/* block /* nested */ */ x",
    "#{\n  let a = 1\n  let b = -a * 2 + 3 == 4 and not c or d in e\n  [content #a]\n}\n", "#let x = if a { 1 } else { 2 }\n",
    "#f[a][b].g(x => x, (y) => y, ..z)", "#{ a not in b; a += 1; a -= 2; a *= 3; a /= 4 }", "#\"str\".len() #1.5em #0xff #true",
    "[not a block] (parens) {braces}", "= H *b\n c* [a- b]\n", "- [a\n\n  b] c\n  d\n e\n", "#let x\n#let f() = none\n",
    "#{ for x in y { break }; while a { continue }; if b [c] }", "1) no 1. yes\n2. x\n", "```rust\nfn f() {}\n```\nx",
]
VALID_CODE = [
    "let f(a, b: 1, ..c) = { a + b }\nf(1, b: 2)", "if a { b } else if c [d] else { e }\nx", "let (a, (b, c), ..) = d; (a, b.c) = e",
    "a = b = c + d * e - f / -g", "not a and b or c == d", "x => y => (z, w: 1) => z + w", "import \"a\": b as c, d.e; include \"f\"",
    "set text(a: b) if c; show x: y; show: z", "while a < b { c; break }\nreturn", "(a: 1, b: (c, d), ..e).f(g)[h]",
    "[a *b* #c] + [d]", "context a.b.c", "for (a, b) in c { continue }", "let _ = a not in b", "(a, ..b) => c", "((a)) + (a,)",
]
TOKEN_RE = re.compile(r"[A-Za-z]+|\s|\d+|.", re.S)


def pieces(s):
    return TOKEN_RE.findall(s)


def random_docs(c, alphabet, n, length, prefixes=("",)):
    """Longer documents; their fragments are drawn with the seed."""
    docs = set()
    while len(docs) < n:
        d = c.rng.choice(prefixes) + "".join(c.rng.choice(alphabet) for _ in range(c.rng.randint(2, length)))
        if d:
            docs.add(d)
    return [[d] for d in sorted(docs)]


def mutants(c, programs, n, alphabet, k=3):
    """Valid programs with a few pieces removed, duplicated, swapped or replaced."""
    docs = set()
    while len(docs) < n:
        p = pieces(c.rng.choice(programs))
        for _ in range(c.rng.randint(1, k)):
            i = c.rng.randrange(len(p)) if p else 0
            o = c.rng.randrange(6)
            if not p or o == 0:
                p.insert(i, c.rng.choice(alphabet))
            elif o == 1:
                del p[i]
            elif o == 2:
                p[i] = c.rng.choice(alphabet)
            elif o == 3:
                p = p[:i + 1]
            elif o == 4:
                j = c.rng.randrange(len(p))
                p[i], p[j] = p[j], p[i]
            else:
                q = pieces(c.rng.choice(programs))
                p[i:i] = q[:c.rng.randint(1, len(q))]
        d = "".join(p)
        if d:
            docs.add(d)
    return [[d] for d in sorted(docs)]


def markup_sets(c, deep=0):
    t = (1 if c.thorough else 0) + deep
    return [
        fam("inline markup", ["a", " ", "\n", "*", "_", "[", "]", "#[", "`", "\\", "\"", "@r"], [[]], steps=3 + t),
        fam("block markup", ["a", " ", "  ", "\n", "- ", "+ ", "/ ", "= ", ":", "]"], [[]], steps=3 + t),
        fam("list nesting", ["- a", "+ b", "/ c: d", "\n", " ", "x", "= h", "[", "]"], [[]], steps=4 + t),
        fam("line starts", ["1. ", "1", ".", "-", "+", "/", "=", " ", "\n", "a", "#x", "/**/"], [[]], steps=3 + t),
    ]


def code_sets(c, deep=0):
    t = (1 if c.thorough else 0) + deep
    return [
        fam("groups and patterns", ["a", ",", ":", "..", ")", "=>", "=", "(", "_", "\"k\"", " "], [["#("]], steps=3 + t),
        fam("operators", ["+a", "-a", "*a", "/a", " in a", " not in a", "==a", "<a", " and a", " or a", "=a", "+=a", "(a", ")", ".a",
                          " not a"], [["a"]], steps=2 + t, mode="Code"),
        fam("statements", ["let ", "set ", "show ", ":", "if ", "else ", "for ", " in ", "while ", "import ", "include ", "as ",
                           "return ", "context ", "x", "x()", "{}", "[]", "\n", ";", "*", "\"s\"", "=", "}"], [["{"]], steps=2 + t, mode="Code"),
        fam("calls and closures", ["(", ")", "[", "]", "a", ":", ",", "..", "=>", " ", ".", "\n"], [["#f"]], steps=3 + t),
        fam("embedded code", ["x", "(", ")", "[", "]", "{", "}", ".", " ", "\n", ";", "let ", "=", "if ", "else "], [["#"]], steps=2 + t),
        fam("destructuring", ["a", "_", "(", ")", ",", ":", "..", "=", "b.c", "1", " "], [["let ("]], steps=3 + t, mode="Code"),
        fam("import lists", [": ", "a", ".", ",", " as ", "*", "(", ")", "\n", ";", " "], [["import x"]], steps=3 + t, mode="Code"),
    ]


def math_sets(c, deep=0):
    t = (1 if c.thorough else 0) + deep
    return [
        fam("scripts and fractions", ["a", "(", ")", "_", "^", "/", "'", "!", " ", "$"], [["$"]], steps=3 + t),
        fam("delimiters", ["a", "(", ")", "[", "|]", "[|", "|", "{", "⟩", "/", " ", "$"], [["$"]], steps=2 + t),
        fam("math arguments", ["a", "b:", "_:", ",", ";", "..", " ", ")", "#c", "(", ".", "$"], [["$f("]], steps=2 + t),
        fam("math atoms", ["√", "#x", "\"s\"", "\\", "pi", ".y", "1", ".", "(", "'", "&", "$", "/*c*/", "\n"], [["$"]], steps=2 + t),
    ]


def every_char(label, templates):
    return fam(label, ["a"], [[t.replace("%", x)] for x in CHARS for t in templates])


def docs(label, seeds, mode="Markup"):
    return fam(label, ["a"], seeds, mode=mode)


# Programs in which the parser backtracks, inside one another.
NESTED_PROGS = [
    "#((x: (y) => y) => x)", "#((x: (y: (z) => z) => y, ..w) => (v) => x)", "#{ (a, (b)) = (c, d) => ((e) => e, 1) }",
    "#let f = (x: ((y, z) = w), u: (v) => v) => x", "#f((x: (y) => y) => x, k: (z) => { (a, b) = z })",
    "#let f(x: (y) => (z: (w) => w) => y) = x", "#((a, b) = (c, d) = (e: (f) => f) => e)", "#show (x): (y: (z) => [a #((b) => b)]) => y",
]


def derived(c, n, mutate=True):
    """Documents derived at random from the grammar, and mutations of them."""
    m, e, p = gen.markup_docs(c.rng, n), gen.expr_docs(c.rng, n), gen.code_docs(c.rng, n)
    out = [docs("derived markup", m), docs("derived expressions", e), docs("derived code", p, "Code")]
    if mutate:
        out += [docs("mutated derivations", mutants(c, [x[0] for x in m + e], n, MK + CD, 3)),
                docs("mutated code derivations", mutants(c, [x[0] for x in p], n, CD, 3), "Code")]
    return out


# ---- checks --------------------------------------------------------------------
def P01(c):
    c.assumptions += ASSUME
    k = 8 if c.thorough else 1
    run_syntax(c, markup_sets(c)[:2] + code_sets(c)[:1] + code_sets(c)[2:4] + [
        every_char("every character in every context",
                   ("%", "#%", "#(a%", "a%b", "#{%}", "@a%", "<a%>", "\\%", "#\"%", "`%", "= %\r\n%", "$%", "$a%b$", "$f(%")),
        docs("random documents", random_docs(c, MK + CD + MT, 2500 * k, 16, ("", "#", "#{", "#(", "$"))),
        docs("mutated programs", mutants(c, VALID_MARKUP + VALID_MATH, 2500 * k, MK + CD + MT, 6)),
        docs("mutated code", mutants(c, VALID_CODE, 1000 * k, CD, 6), "Code"),
    ] + derived(c, 1500 * k) + [
        fam("trivia everywhere", ["/*c*/", " ", "\n"], [pieces(x) for x in NESTED_PROGS + VALID_MARKUP + VALID_MATH], ["insert"], 1),
        fam("every single fault in valid code", ["a", ")", "(", "\"", ":"], [pieces(x) for x in VALID_CODE],
            ["insert", "remove", "replace", "truncate", "swap"], 1, "Code"),
    ], "lossless")


def P02(c):
    c.assumptions += ASSUME
    b = c.build_harness(PKG, HF)
    k = 8 if c.thorough else 1
    # deep and unbalanced nesting, backtracking
    nest(c, b)
    if c.thorough:
        # millions of levels
        for u in ("(", "[", "not "):
            deep = c.path(f"abyss{ord(u[0])}.ndjson")
            with open(deep, "w") as f:
                f.write(json.dumps(["Markup", cps("#[" if u == "[" else "#"), cps("#[" if u == "[" else u), [], [], ABYSS]) + "\n")
            c.cov["traces_validated_against_impl"] += c.replay(b, "terminates", deep, env={"VERIF_CASE_LIMIT": "200"}, workers=1, classify=abyss)
    # hostile short texts: no crash, no hang
    nasty = ["(", ")", "[", "]", "{", "}", "#", "..", "=>", ":", ",", "=", "let ", "\"", "`", "_"]
    run_syntax(c, [
        fam("unbalanced delimiters", nasty, [["#"], ["#("]], ["type"], 4 if c.thorough else 3),
        docs("random documents", random_docs(c, MK + CD + ["("] * 4 + ["#("], 3000 * k, 24, ("", "#", "#{", "#(", "#(("))),
        docs("random math", random_docs(c, MT, 2000 * k, 20, ("$", "$f(", "#{$"))),
        docs("mutated programs", mutants(c, VALID_MARKUP + VALID_MATH + ["#" + x for x in VALID_CODE], 3000 * k, MK + CD + MT, 8)),
        every_char("every character in every context",
                   ("%", "#%", "#(%: 1)", "#(a%", "a%b", "#{%}", "@a%", "#let %", "#f(%)", "#import %", "#import a: %", "$%", "$f(%", "$√%")),
        docs("short files", [[x] for x in SHORT]),
    ] + derived(c, 1000 * k), "terminates_text")


SHORT = ["", "#", "#!", "\\", "@", "<", "*", "_", "`", "``", "```", "````", "\"", "-", "--", "=", "/", "//", "/*", "1.", "\\u", "\\u{",
         "#\"", "#\"\\", "#(", "#{", "#[", "#(:", "#(..", "#let", "#let ", "#set", "#show", "#import", "#include", "#if", "#for", "#while",
         "#return", "#context", "#f(", "#x.", "#x..", "#1.", "#1e", "#0x", "#(_: 1)", "#(a: 1, a: 2)", "#<", "#<a", "@a[", "- ", "= ", "/ a",
         "/ a:", "http://", "\u2028", "\r", "\ufffd", "#\ufffd", "]", "#]", "#)", "#}",
         "$", "$$", "$$$", "$a", "$a_", "$a^", "$a/", "$/", "$_", "$^", "$'", "$(", "$)", "$f(", "$f(,", "$f(;", "$f(..", "$f(a:", "$√", "$\\", "$#", "$#(", "$\"", "#$", "$//", "$/*",
         "$a.", "$a.b.", "$[", "$|", "$||", "$!", "$&", "$\u0301", "$`"]


ABYSS = 4000000


def abyss(d, case):
    """The known finding: nesting of millions of levels overflows the stack."""
    if d["kind"] == "crash" and "goroutine stack exceeds" in d["what"] and json.loads(case)[5] >= ABYSS:
        return "deep-stack"


def nest(c, b):
    out = c.path("nest.ndjson")
    n = c.tlc("Nesting", invariants=["Emit"], emit=out, label="nested and unbalanced texts", cfgdata={
        "opens": [cps(x) for x in OPENS], "closes": [cps(x) for x in CLOSES],
        "mids": [cps(x) for x in (["x", "", ")", "x) => y"] if c.thorough else ["x"])], "count": 120 if c.thorough else 64,
        "deep": 500 if c.thorough else 400, "depth": 2, "start": []})
    more = c.path("nestmath.ndjson")
    n += c.tlc("Nesting", invariants=["Emit"], emit=more, label="nested and unbalanced math", cfgdata={
        "opens": [cps(x) for x, _ in MATH_NESTED], "closes": [cps(x) for _, x in MATH_NESTED], "start": cps("$"),
        "mids": [cps(x) for x in ["x", "x$"]], "count": 120 if c.thorough else 64, "deep": 500 if c.thorough else 400, "depth": 2})
    with open(out, "a") as f, open(more) as g:
        f.write(g.read())
    c.cov["traces_validated_against_impl"] += c.replay(b, "terminates", out, env={"VERIF_CASE_LIMIT": "40" if c.thorough else "20"}, timeout=800 if c.thorough else 600)
    with open(out) as f:
        for i, l in enumerate(f):
            if i in (n // 3, n // 2):
                d = json.loads(l)
                c.sample({"mode": d[0], "prefix": utext(d[1]), "unit": utext(d[2]), "mid": utext(d[3]), "suffix": utext(d[4]), "times": d[5]})


# An opener and the text that closes it.
NESTED = [("(", ")"), ("[", "]"), ("{", "}"), ("(x: ", ")"), ("(x, ", ")"), ("((x) => ", ")"), ("x(", ")"), ("x[#", "]"),
          ("if x {", "}"), ("let x = ", ""), ("-", ""), ("not ", ""), ("a + ", ""), ("a => ", ""), ("(a, ", ") = 1"),
          ("(..", ") => 1"), ("(a: (", ")) => 1"), ("set x(", ")"), ("show x: ", ""), ("context ", ""), ("(a = ", ")"),
          ("for x in ", " {}"), ("while ", " {}"), ("import ", ": a"), ("return ", ""), ("a.", "b"), ("#", ""), ("..", ""), (":", ""),
          ("*", "*"), ("_", "_"), ("/*", "*/"), ("- ", "\n"), ("= ", "\n"), ("/ a: ", "\n"), ("\"", "\""), ("`", "`"), ("<a", ">"),
          ("@a[", "]"), ("((", ") => 1)"), ("(x: ", ") => 1"), ("(x: ", ")=1"), ("f((x) => (", "))"), ("(a, b: ", ") => a"),
          ("$(", ")$"), ("$f(", ")$"), ("$√", "$"), ("$a_", "$"), ("$a/", "$"), ("$#[", "]$"), ("$[x", "|$"), ("$#{$", "$}$"), ("$f(x: ", ";)$"), ("$a'^", "$")]
# the same, going deeper without leaving the equation
MATH_NESTED = [("(", ")"), ("f(", ")"), ("√", ""), ("a_", ""), ("a^", ""), ("a/", ""), ("[", "]"), ("f(a, ", ";)"), ("f(x: ", ")"), ("#[$", "$]"), ("{", ")"), ("a(", ")/b"),
               ("'", ""), ("!", ""), ("|", "|"), ("f(..", ")"), ("#(", ")"), ("a.b(", ";"), ("(a)/", "")]
OPENS = [o for o, _ in NESTED]
CLOSES = [x for _, x in NESTED]


LEX_CONTEXTS = [
    "%", "a%", "%a", "a%b", "#%", "<%>", "<a%>", "@%", "@a%", "@a%b", "*%", "%*", "a*%b", "\\%", "\\u{%}", "1%", "1.%", "1e%",
    "0x%", "0b%", "0o%", "1.5%", "-%", "=%", "= %", "a.%", "`%`", "``%``", "```%```", "```%a```", "``` %```", "```a%```",
    "```\n %\n```", "/%", "/*%*/", "//%\n", "\"%\"", "\"\\%\"", "%%", "%-", "%.", "http://%", "http://a%b", "https://a%", "~%",
    "-?%", "\n%", "\r%", "%\n", "1%2", "'%", "_%_", "a_%", "\u4e2d%a", "%\u4e2d", "#!%", "a%=", "a-%"]


def P03(c):
    c.assumptions += ASSUME
    t = 1 if c.thorough else 0
    k = 8 if c.thorough else 1
    some = CHARS if c.thorough else [x for x in ASCII if not x.isalnum() or x in "aeux01bo9"] + NONASCII
    run_tokens(c, [
        toks("every character in every lexical context", [x.replace("%", ch) for x in LEX_CONTEXTS for ch in CHARS]),
        toks("every pair of characters", [x + y for x in some for y in some]),
        toks("numbers and identifiers", [""], ["0", "1", "9", ".", "e", "x", "b", "o", "-", "_", "p", "t", "%", "a", "f", "+"], [], 4 + t),
        toks("raw text", ["", "`"], ["`", "``", "a", " ", "\n", "\r\n", "-"], ["`", "``", "```", "````"], 5 + t),
        toks("indented raw text", ["```", "```\n", "```a\n"], ["``", " ", "\n", "a", "\t"], ["```"], 5 + t),
        toks("comments and strings", ["", "a", "\n"], ["/", "*", "//", "/*", "*/", "\n", "a", "\"", "\\"], ["*/"], 4 + t),
        toks("links", ["http://", "https://", "http:"], ["a", "(", ")", "[", "]", "{", "}", ".", ",", "'", "?", "/", "%", " "], ["]", " a"], 3 + t),
        toks("shorthands, markers, text", ["", "a"], ["-", ".", "=", "+", "/", "1", " ", "*", "_", "~", "?", "a", ":", "\n"], [], 4 + t),
        toks("operators", ["", "a"], ["+", "-", "*", "/", "=", "!", "<", ">", ".", "a", "1", ";"], [], 3 + t),
        toks("unicode escapes", ["\\u", "\"\\u", "\\u{"], ["{", "}", "0", "1", "d", "8", "F", "g", " ", "\""], [], 4 + t),
        toks("large unicode escapes", ["\\u{10", "\\u{d", "\\u{", "\\u{0000000"], ["F", "f", "0", "8"], ["}", "g}", ""], 6 + t),
        toks("labels and references", ["", "<", "@"], ["<", ">", "@", "a", ":", ".", "-", "_", " ", "1", "\u00e9"], [], 4 + t),
        toks("keywords", [x + y + z for x in KEYWORDS for y in ("", "a", "-", "1", ":", " ", "_", "é", "(") for z in ("", "=")]),
        toks("math shorthands", ["", "a"], ["-", ">", "<", "=", "~", "|", ":", "[", "]", "!", ".", "*"], [], 3 + t),
        toks("long math shorthands", MATH_SHORTHANDS, [">", "<", "=", "-", "~", "|", ".", "]", "*"], [], 2 + t),
        toks("math names and numbers", ["", "a"], ["a", ".", "1", "_", "é", "\u0301", "½", "Ⅷ", "-", "'", "√", "\n"], [], 3 + t),
        toks("random texts", [d[0] for d in random_docs(c, MK + CD + MT + CHARS, 3000 * k, 12)]),
        toks("random characters", ["".join(c.rng.choice(CHARS) for _ in range(c.rng.randint(3, 12))) for _ in range(2000 * k)]),
    ])


KEYWORDS = ["none", "auto", "true", "false", "not", "and", "or", "let", "set", "show", "context", "if", "else", "for", "in", "while", "break",
            "continue", "return", "import", "include", "as", "nota", "No", "None", "i", "e", "a"]


def P04(c):
    c.assumptions += ASSUME
    k = 8 if c.thorough else 1
    ind = [" ", "  ", "    ", "\t", "\n", "\n\n", "- ", "+ ", "1. ", "/ t: ", "a", "b", "[", "]", "= ", "*", "`r`", "//c\n", "/*\n*/", "\r\n", ": "]
    run_syntax(c, markup_sets(c, 1) + [
        docs("random markup", random_docs(c, MK, 4000 * k, 14)),
        docs("mutated markup", mutants(c, VALID_MARKUP, 3000 * k, MK, 5)),
        docs("random indentation", random_docs(c, ind, 4000 * k, 18)),
        every_char("every character in every context", ("%", "a%b", "*%*", "- %", "= %\nb", "[%]", "/ %: b", "@a%", "#x%", "#[%]", "\n%a", "1%", "1. %")),
        fam("every single fault in valid documents", ["a", "[", "]", "*", "\n", " ", "- "], [pieces(x) for x in VALID_MARKUP],
            ["insert", "remove", "replace", "truncate", "swap"], 1),
    ] + derived(c, 1500 * k), "structure")


def P05(c):
    c.assumptions += ASSUME
    k = 8 if c.thorough else 1
    chain = ["a", "b", "-a", "not a", "f(x)", "(a)", "1", "a.b", "+a"]
    ops = [" + ", " - ", "*", "/", " == ", " != ", " < ", " <= ", " > ", " >= ", " and ", " or ", " in ", " not in ", " = ", " += ", " -= ",
           " *= ", " /= ", "\n+ ", " +\n"]
    ch = set()
    while len(ch) < 3000 * k:
        ch.add(c.rng.choice(chain) + "".join(c.rng.choice(ops) + c.rng.choice(chain) for _ in range(c.rng.randint(2, 7))))
    run_syntax(c, code_sets(c, 1) + [
        docs("random embedded code", random_docs(c, CD, 4000 * k, 14, ("#{", "#(", "#", "#let ", "#f("))),
        docs("random code", random_docs(c, CD, 2000 * k, 14), "Code"),
        docs("mutated code", mutants(c, VALID_CODE, 2000 * k, CD, 4), "Code"),
        docs("mutated programs", mutants(c, VALID_MARKUP, 2000 * k, CD + MK, 4)),
        docs("operator chains", [[d] for d in sorted(ch)], "Code"),
        fam("trivia everywhere", ["/*c*/", " ", "\n"], [pieces(x) for x in NESTED_PROGS], ["insert"], 1),
    ] + derived(c, 1500 * k), "structure")


def P06(c):
    c.assumptions += ASSUME
    k = 8 if c.thorough else 1
    base = ["a", ")", "(", "]", "[", "{", "}", ",", ":", "\n", "=", "let ", "..", "*/", "\"", "1", "_", "#"]
    faults = ["insert", "remove", "replace", "truncate", "swap"]
    run_syntax(c, [
        fam("every single fault in valid documents", base, [pieces(x) for x in VALID_MARKUP], faults, 1, valid=True, added=base if c.thorough else base[:9]),
        fam("every single fault in valid code", base, [pieces(x) for x in VALID_CODE], faults, 1, "Code", valid=True),
        docs("random embedded code", random_docs(c, CD, 2000 * k, 12, ("#{", "#(", "#", "#let ", "#f("))),
        docs("random markup", random_docs(c, MK, 1500 * k, 12)),
        docs("several faults", mutants(c, VALID_MARKUP + VALID_MATH, 2500 * k, CD + MK + MT, 4)),
        docs("random math", random_docs(c, MT, 1000 * k, 10, ("$", "$f("))),
        docs("several faults in code", mutants(c, VALID_CODE, 1000 * k, CD, 4), "Code"),
    ] + derived(c, 1000 * k), ["errors", "structure"])
    run_syntax(c, code_sets(c) + markup_sets(c)[:2] + [
        every_char("every character in every context", ("#%", "#{%}", "#(a % b)", "<a%", "#1%", "\\u{%}", "#a.%", "$%", "$f(%)$", "$a_%$")),
    ], "errors")


def P07(c):
    c.assumptions += ASSUME
    k = 8 if c.thorough else 1
    g = gen.math_docs(c.rng, 2000 * k)
    frags = ["a", "(", ")", "_", ";", ",", "$", "/", "'", "!", " "]
    run_syntax(c, math_sets(c, 1) + [
        docs("random math", random_docs(c, MT, 4000 * k, 12, ("$", "$", "$ ", "$f(", "#let x = $", "$mat("))),
        docs("mutated math", mutants(c, VALID_MATH, 3000 * k, MT, 4)),
        docs("derived math", g),
        docs("mutated derivations", mutants(c, [x[0] for x in g], 2000 * k, MT, 3)),
        every_char("every character in every context", ("$%$", "$a%b$", "$%(a)/b$", "$(a%/b$", "$f(%)$", "$f(%: a)$", "$a_%^b$", "$√%$", "$%'$", "$[a % b]$", "$%\u0301$", "$f(..%)$")),
        fam("every single fault in valid math", frags, [pieces(x) for x in VALID_MATH], ["insert", "remove", "replace", "truncate", "swap"], 1, valid=True),
    ], ["structure", "errors"])
