"""A01, A02: the typed view of syntax trees."""
import json, os
import gen
from common import cps, utext, CheckError
from syntax import (fam, docs, derived, markup_sets, code_sets, math_sets, every_char, random_docs, mutants, pieces, MK, CD, MT, VALID_MARKUP,
                    VALID_CODE, VALID_MATH, NESTED_PROGS, ASSUME, PKG)

HF = ["syntax/main", "syntax/kinds", "syntax/tree", "syntax/ast"]


def view(c, fams):
    b = c.build_harness(PKG, HF)
    out = c.path(f"cases{c.n_runs}.ndjson")
    n = c.tlc("Typed", invariants=["PartsInside", "NoErrorComplete", "Reached", "EmitParts"], view="View", cfgdata={"fams": fams}, emit=out,
              label=", ".join(f["label"] for f in fams), timeout=850)
    if not n:
        raise CheckError("the specification produced no behaviour")
    c.cov["traces_validated_against_impl"] += c.replay(b, "parts", out)
    k = "not compared because the parser built another tree (see P04, P05)"
    c.cov[k] = c.cov.get(k, 0) + c.last_stats.get("other tree", 0)
    with open(out) as f:
        for i, l in enumerate(f):
            if i * 6 // n != (i - 1) * 6 // n:
                d = json.loads(l)
                c.sample({"mode": d[1], "text": utext(d[0]), "parts": sum(map(len, d[3]))})
    os.remove(out)


def casts(c):
    b = c.build_harness(PKG, HF)
    out = c.path("casts.ndjson")
    n = c.tlc("Casts", invariants=["Consistent", "Emit"], emit=out, label="conversions of every kind of node")
    c.cov["traces_validated_against_impl"] += c.replay(b, "casts", out)


def A01(c):
    c.assumptions += ASSUME
    k = 8 if c.thorough else 1
    t = 1 if c.thorough else 0
    casts(c)
    view(c, [
        docs("valid documents", [[x] for x in VALID_MARKUP + NESTED_PROGS]),
        docs("valid code", [[x] for x in VALID_CODE], "Code"),
        docs("imports", [[x] for x in IMPORTS]),
        fam("import lists", [": ", "a", ".", ",", " as ", "*", "(", ")", "\n", " "], [["import x"], ["import \"a/b.typ\""]], steps=3 + t, mode="Code"),
        fam("let bindings", ["a", "_", "(", ")", ",", ": ", "..", " = ", "1", "b.c"], [["let "], ["let ("]], steps=3 + t, mode="Code"),
        fam("closures", ["a", "(", ")", ",", ": ", "..", " => ", "_", "1"], [["("], ["let f("]], steps=3 + t, mode="Code"),
        fam("rules and statements", ["x", "x()", " if ", " else ", "{}", "[]", ": ", " in ", "\n", "/**/"],
            [["set "], ["show "], ["for "], ["while "], ["if "], ["return"], ["context "], ["include "]], steps=3 + t, mode="Code"),
        fam("arguments", ["a", ",", ": ", "..", "(", ")", "[", "]", "\n", "/**/"], [["#f("], ["#f"]], steps=3 + t),
    ] + math_sets(c, -1) + [
        docs("math", [[x] for x in VALID_MATH]),
        fam("scripts and primes", ["a", "'", "_", "^", "(", ")", "/", " ", "√", "$"], [["$a"]], steps=4 + t),
        docs("random math", random_docs(c, MT, 700 * k, 10, ("$", "$f("))),
        docs("mutated math", mutants(c, VALID_MATH, 500 * k, MT, 3)),
        fam("comments and spaces anywhere", ["/*c*/", " "], [pieces(x) for x in NESTED_PROGS + VALID_MARKUP + IMPORTS + VALID_MATH[:8]], ["insert"], 1),
        fam("comments and spaces anywhere in code", ["/*c*/", "\n"], [pieces(x) for x in VALID_CODE], ["insert"], 1, "Code"),
        docs("random markup", random_docs(c, MK, 700 * k, 12)),
        docs("random code", random_docs(c, CD, 700 * k, 12, ("#{", "#(", "#", "#let ", "#f("))),
        docs("mutated programs", mutants(c, VALID_MARKUP, 700 * k, MK + CD, 4)),
        docs("mutated code", mutants(c, VALID_CODE, 500 * k, CD, 4), "Code"),
    ] + derived(c, 500 * k, False))


IMPORTS = ["#import %s" % s for s in (
    '"a.typ"', '"a/b.typ"', '"a.b.typ"', '"a-b"', '"1a.typ"', '"a b.typ"', '""', '".typ"', '".a.b"', '"é.typ"', '"a\\u{62}.typ"', '"/a"', '"a.typ" as b',
    '"@preview/a:1.0.0"', '"@preview/a-b:1.0.0"', '"@preview/a"', '"@a/b:1.0"', '"@"', 'a', 'a.b', 'a.b.c', '(a)', '("a.typ")', 'f()', '"a" + "b"',
    '"a": *', '"a": b', '"a": (b)', '"a": b as c', '"a": b.c.d as e, f, g as h', 'x as y: z', '"a" as b: *', '"a": (\n b, // c\n c as d,\n)', 'none', '1',
    '"a":', '"a" as', '"a".b', '"a": b,', '{ a }', '[a]')]


NUM = ["0", "1", "9", ".", "e", "E", "-", "+", "pt", "em", "%", "x", "b", "o", "f"]


def A02(c):
    c.assumptions += ASSUME
    k = 8 if c.thorough else 1
    t = 1 if c.thorough else 0
    units = ["pt", "mm", "cm", "in", "deg", "rad", "em", "fr", "%", ""]
    nums = ["0", "1", "12", "1.5", ".5", "1.", "1e3", "1e-2", "1.5e+1", "007", "0.1e1", "123456789", "2e0", "1e10"]
    ints = ["0x0", "0xff", "0xFF", "0xabcdef0123456", "0o17", "0o777", "0b0", "0b101", "0b" + "1" * 63, "0x7fffffffffffffff", "0x8000000000000000",
            "0o777777777777777777777", "9223372036854775807", "9223372036854775808", "99999999999999999999", "0", "00", "0123", "1" * 18]
    floats = ["0.1", "3.14159265358979", "1e308", "1e309", "1e-308", "1e-400", "123456789012345678901234567890.5", "0.30000000000000004", "9007199254740993.0",
              "1.7976931348623157e308", "4.9e-324", "2.5e-5", "0e0", "00.50", "5e3", "1E5", "1e05"]
    view(c, [
        docs("numbers with units", [["#" + x + u] for x in nums for u in units] + [[x + u] for x in nums for u in units[:3]]),
        docs("integers and floats", [["#" + x] for x in ints + floats] + [["#(-%s)" % x] for x in ints + floats]),
        fam("numbers", NUM, [["#"], ["#1"]], steps=3 + t),
        fam("strings", ["\\", "n", "u{", "41", "}", "\"", "t", "r", "1F600", "d800", "\n", "é", "\\\\"], [["#\""]], steps=4 + t),
        fam("escapes", ["\\", "u{", "4", "1", "f", "F", "}", "n", "#", " ", "\n", "*"], [["\\"], ["\\u{"]], steps=3 + t),
        every_char("every character", ("\\%", "#\"\\%\"", "#\"%\"", "%", "<a%b>", "@a%", "`%`", "```%```", "``` % ```", "```a %```", "```\n%\n```",
                                       "https://%", "#a%", "#let %", "-%", "'%\"", "$%$", "$a%b$", "$ %1$", "$a%1$")),
        fam("math shorthands", ["-", ">", "<", "=", "~", "|", ":", "[", "]", "!", ".", "*"], [["$"]], steps=3 + t),
        fam("math texts", ["a", "1", ".", "é", "\u0301", "½", "Ⅷ", "'", "√", "∛", "∜", "²", "_"], [["$"]], steps=3 + t),
        fam("raw text", ["`", "``", "a", " ", "\n", "  ", "\r\n", "-b"], [["`"], ["```"], ["```\n"]], steps=4 + t),
        fam("shorthands and quotes", ["-", "?", ".", "~", "'", "\"", " ", "1", "a"], [[]], steps=4 + t),
        fam("headings and items", ["=", " ", "a", "\n", "1", "0", ".", "+ ", "- ", "/ ", ":"], [[]], steps=4 + t),
        docs("enumerations", [["%s. a" % x] for x in ("0", "1", "007", "42", "18446744073709551615", "18446744073709551616", "9223372036854775807", "99999999999999999999")]
             + [["%s. a\n+ b\n%s) c" % (x, x)] for x in ("1", "10")]),
        docs("labels and references", [[x] for x in ("<a>", "<a.b-c:d_e>", "@a", "@a.", "@a.b", "@a[b]", "@a[b][c]", "@a:[b]", "#<a>", "<a><b>", "@é", "<1>", "@1-2")]),
        docs("random literals", [["".join(c.rng.choice(LITS) for _ in range(c.rng.randint(1, 8)))] for _ in range(1500 * k)]),
        docs("random strings", [["#\"" + "".join(c.rng.choice(STRS) for _ in range(c.rng.randint(1, 10))) + "\""] for _ in range(1000 * k)]),
        docs("random numbers", [["#" + "".join(c.rng.choice(NUM) for _ in range(c.rng.randint(2, 9)))] for _ in range(1000 * k)]),
        docs("random raw text", [["```" + "".join(c.rng.choice(RAWS) for _ in range(c.rng.randint(1, 10))) + "```"] for _ in range(700 * k)]),
    ] + derived(c, 300 * k, False))


LITS = ["\\u{41}", "\\u{1F600}", "\\*", "---", "--", "-?", "~", "...", "'", "\"", "#1", "#2.5", "#3pt", "#0x1f", "#true", "#false", "#none", "#auto", "#\"a\\tb\"",
        "`a b`", "``", "```py x```", "```\n x\n```", "<l>", "@r", "@r[s]", "http://a.b", " ", "a", "1", "-1", "- ", "\n", "= ", "1. ", "é", ";", "*", "_"]
STRS = ["a", "\\n", "\\t", "\\r", "\\\\", "\\\"", "\\u{41}", "\\u{1F600}", "\\u{d800}", "\\u{110000}", "\\u{}", "\\u", "\\x", "é", "😀", "\n", " ", "'", "\\u{000041}", "}", "{",
        "\\u{g}", "\\u{4", "\\N"]
RAWS = ["a", " ", "\n", "  ", "`", "b\n", "\t", "py", "é", "\r\n", "-", "``", " \n"]
