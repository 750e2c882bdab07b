"""N01..N03: moving around in trees, walking them, highlighting."""
import json, os
import gen
from common import cps, utext, CheckError
from syntax import (fam, docs, derived, markup_sets, code_sets, math_sets, every_char, random_docs, mutants, pieces, MK, CD, MT, VALID_MARKUP,
                    VALID_CODE, VALID_MATH, NESTED_PROGS, ASSUME, PKG)

HF = ["syntax/main", "syntax/kinds", "syntax/tree", "syntax/nav"]


def look(c, fams, emit, op, inv):
    b = c.build_harness(PKG, HF)
    out = c.path(f"cases{c.n_runs}.ndjson")
    n = c.tlc("Look", invariants=[inv, emit], view="View", cfgdata={"fams": fams}, emit=out,
              label=", ".join(f["label"] for f in fams), timeout=850)
    if not n:
        raise CheckError("the specification produced no behaviour")
    c.cov["traces_validated_against_impl"] += c.replay(b, op, out)
    skipped = c.last_stats.get("other tree", 0)
    c.cov["skipped because the parser built another tree (see P04, P05)"] = \
        c.cov.get("skipped because the parser built another tree (see P04, P05)", 0) + skipped
    with open(out) as f:
        for i, l in enumerate(f):
            if i * 6 // n != (i - 1) * 6 // n:
                d = json.loads(l)
                c.sample({"mode": d[1], "text": utext(d[0]), "nodes": len(d[2])})
    os.remove(out)


# Names in all contexts that matter to highlighting.
NAMES = ["#f", "f", "(", ")", "[", "]", ".", " ", ",", ":", "=>"]
SHOWS = ["#show ", "heading", ":", " ", "it => ", "a.b", "f", "(", ")", "[x]", ".with"]


def N01(c):
    c.assumptions += ASSUME
    k = 8 if c.thorough else 1
    t = 1 if c.thorough else 0
    look(c, [f for f in markup_sets(c, -1) + code_sets(c, -1)] + [
        fam("trivia between siblings", ["a", "/*c*/", " ", "\n", "(", ")", ",", "[", "]", "b.c"], [["#f"], ["#("]], steps=3 + t),
        docs("random markup", random_docs(c, MK, 700 * k, 10)),
        docs("random code", random_docs(c, CD, 700 * k, 10, ("#{", "#(", "#", "#f("))),
        docs("mutated programs", mutants(c, VALID_MARKUP, 500 * k, MK + CD, 4)),
        docs("mutated code", mutants(c, VALID_CODE, 400 * k, CD, 4), "Code"),
        docs("math", [[x] for x in VALID_MATH]),
        docs("random math", random_docs(c, MT, 400 * k, 9, ("$", "$f("))),
        docs("mutated math", mutants(c, VALID_MATH, 300 * k, MT, 3)),
        docs("derived markup", gen.markup_docs(c.rng, 400 * k, 70)),
        docs("derived code", gen.code_docs(c.rng, 300 * k, 60), "Code"),
        fam("comments and spaces anywhere", ["/*c*/", " "], [pieces(x) for x in NESTED_PROGS + VALID_MARKUP[:12]], ["insert"], 1),
        docs("short files", [[x] for x in ("", " ", "a", "é😀", "[]", "#[]", "#()", "#{}", "//c", "/*", "\n\n", "#", "*", "é\n中")]),
    ], "EmitNav", "nav", "NavSound")


def N03(c):
    c.assumptions += ASSUME
    k = 8 if c.thorough else 1
    t = 1 if c.thorough else 0
    look(c, markup_sets(c, -1) + code_sets(c, -1) + math_sets(c, -1) + [
        fam("names in math", ["f", "ab", "(", ")", ".", " ", "x", "#", ",", "_", "/", "$", ":"], [["$"], ["$ab"]], steps=3 + t),
        docs("math", [[x] for x in VALID_MATH]),
        docs("random math", random_docs(c, MT, 1000 * k, 10, ("$", "$f(", "$ab.c"))),
        docs("mutated math", mutants(c, VALID_MATH, 700 * k, MT, 4)),
        fam("names", NAMES, [["#f"], ["f"]], steps=3 + t),
        fam("names in code", ["f", "(", ")", "[", "]", ".", " ", "x", "=", ",", ":"], [["let f"], ["f"]], steps=3 + t, mode="Code"),
        fam("show and set rules", SHOWS, [["#show "], ["#set "]], steps=3 + t),
        fam("hashes", ["#", "x", " ", "(", "[", "{", ")", "1", "\"s\"", "let ", "if ", "\n", "/**/", "-", "not ", "<l>", "`r`", "*"],
            [["#"], ["a#"]], steps=2 + t),
        fam("term lists", ["/ ", "a", ":", " ", "*", "\n", "#x"], [["/ "]], steps=4 + t),
        every_char("every character", ("%", "a%", "#%", "#f(%)", "$%$", "$a%b$", "$ab%cd$", "`%`", "#\"%\"", "//%", "<%>", "*%*", "= %", "#[%]")),
        docs("random markup", random_docs(c, MK, 1500 * k, 12)),
        docs("random code", random_docs(c, CD + ["#", "#x", "f(", ".g"], 1500 * k, 12, ("#{", "#(", "#", "#show ", "#f("))),
        docs("mutated programs", mutants(c, VALID_MARKUP, 1200 * k, MK + CD, 5)),
        docs("mutated code", mutants(c, VALID_CODE, 800 * k, CD, 4), "Code"),
    ] + derived(c, 500 * k) + [
        fam("comments and spaces anywhere", ["/*c*/", " ", "#"], [pieces(x) for x in NESTED_PROGS + VALID_MARKUP + VALID_MATH[:12]], ["insert"], 1),
    ], "EmitTags", "tags", "HtmlSound")


def N02(c):
    c.assumptions += ASSUME
    k = 8 if c.thorough else 1
    small = ["a", "*a*", "#f(x)", "- a", "= b", "#a.b", "[", "#(", "a b", "#{a}", "\\", "", "#let a = 1", "#[*]", "@a[b]", "$a_b$", "$f(x)/2$"]
    if c.thorough:
        small += ["#f(x)[y]", "*a _b_*", "#(a, b)", "- a\n- b", "/ a: b", "#import \"a\": b", "#if a [b]"]
    D = [{"text": cps(x), "mode": "Markup", "starts": 1, "every": 0, "salt": 0, "long": False} for x in small]
    big = random_docs(c, MK + CD + MT, 1000 * k, 16, ("", "#", "#{", "$")) + mutants(c, VALID_MARKUP + VALID_MATH, 1000 * k, MK + CD, 4) + \
        gen.markup_docs(c.rng, 1000 * k, 120) + [[x] for x in VALID_MARKUP]
    for i, d in enumerate(big):
        D.append({"text": cps("".join(d)), "mode": "Markup", "starts": c.rng.choice([0, 0, 3, 7]),
                  "every": c.rng.choice([2, 3, 5, 8, 1000]), "salt": c.rng.randrange(1000), "long": False})
    for u, m in (("*a _b_* #f(x)[y] ", 260), ("- a\n  + b\n\n", 300), ("#let a = (b, c: 1)\n", 220), ("a b ", 1200), ("#[*a*\n= b\n]", 250)):
        D.append({"text": cps(u * (m * (2 if c.thorough else 1))), "mode": "Markup", "starts": 0, "every": c.rng.choice([1009, 2003, 50021]),
                  "salt": c.rng.randrange(1000), "long": True})
    main = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "syntax", "zz_verif_main_test.go")
    with open(main) as f:
        s = f.read().replace("package syntax", "package cstwalk", 1)
    b = c.build_harness("typst/cstwalk", ["cstwalk/walk"], extra={"main": s})
    out = c.path("walks.ndjson")
    n = c.tlc("Walk", invariants=["Exact", "Once", "Emit"], cfgdata={"docs": D}, emit=out, label="walks", timeout=850)
    if not n:
        raise CheckError("the specification produced no behaviour")
    c.cov["traces_validated_against_impl"] += c.replay(b, "walk", out)
    c.cov["skipped because the parser built another tree (see P04, P05)"] = c.last_stats.get("other tree", 0)
    with open(out) as f:
        for i, l in enumerate(f):
            if i * 6 // n != (i - 1) * 6 // n:
                d = json.loads(l)
                c.sample({"text": utext(d[0]), "start": d[3], "declined": d[4], "visited": len(d[5])})
