"""E01..E04: incremental reparsing, edit ranges, span numbering and encoding."""
import json, os
from common import cps, utext, CheckError
from syntax import MK, CD, MT, VALID_MARKUP, VALID_CODE, VALID_MATH, derived

HF = ["syntax/main", "syntax/edits"]
PKG = "typst/syntax"
INV = ["Exact", "Covers", "Untouched", "Local"]
ASSUME = ["edits start and end at character boundaries of valid UTF-8 texts"]

# Small open documents and what is typed into them.
SMALL = ["a *b* #{c} d", "= H\n- a\n\nb", "#[a *b* c] d", "x #let y = 1\nz", "#f(a)[b] c", "a http://x.y, b", "[a] #[[b] c]",
         "#{[a] {b}}\nc", "a // b\nc", "/* a */ b", "`a` ```b```", "a \\ b ~", "@a[b] c", "#a.b c", "- a\n  b\nc", "\"a\" 'b'",
         "#if a [b] else {c}", "a_b_ *c*", "#(a, b) c", "/ a: b", "#a; b", "\n\na\n", "é #{é} é", "#{\na\nb\n}", "<a> b", "+ a\n\n  b",
         "a $x_1$ b", "$#[a] b$ #[$c$]", "$f(#{a}, b)$\nc"]
TYPED = ["", "a", " ", "\n", "[", "]", "*", "#", "\"", "}", "{", "//", "/*", "`", "- ", "= ", "\n\n", ":", ")", "(", ";", "_", "\\", ".", "é", "$", "$a$"]
PARAGRAPHS = ["Text with *bold _words_* in it. ", "A line about `raw` things.\n", "\n\nA new paragraph: ", "see @ref[there] <lab> ",
              "#let f(x) = { x + 1 }\n", "#f(1)[some *content* here] and more. ", "- item one\n  - nested item\n", "= A heading\n",
              "#[a block with [brackets] inside] ", "#{ let a = 1; [x]; a }\n", "link http://a.b/c, done. ", "/ Term: what it is\n",
              "\"quoted text\" and 'more' -- dashes... ", "#if a [yes #b] else [no] ", "// a comment\n", "/* block */ ",
              "#for x in y { [#x, ] }\n", "#set text(size: 1pt)\n", "escaped \\# and \\u{41} ", "1. one\n2. two\n", "é中😀 unicode ",
              "an equation $a_1^2 + f(x, y) / 2$ inside ", "$ sum_(i=0)^n x_i \\ &= #[block] $\n", "$#{ a } #x.y$ "]


def fam(label, seeds=(), frags=("",), steps=0, del_=3, design=False, scripts=()):
    return {"label": label, "seeds": [{"text": cps(s), "script": []} for s in seeds] +
            [{"text": cps(s), "script": [{"i": i, "j": j, "w": cps(w)} for i, j, w in ops]} for s, ops in scripts],
            "frags": [cps(f) for f in frags], "steps": steps, "del": del_, "design": design}


def doc(c, n):
    return "".join(c.rng.choice(PARAGRAPHS) for _ in range(n))


def script(c, seed, steps, alphabet, local=False, small=False):
    """A random editing session."""
    r = c.rng
    t, ops = seed, []
    at = r.randint(0, len(t))
    for _ in range(steps):
        i = min(max(at + r.randint(-2, 2), 0), len(t)) if local else r.randint(0, len(t))
        j = min(i + (r.choice([0, 0, 0, 1, 1, 2, 3, 8]) if not small else r.choice([0, 0, 0, 1, 1, 2])), len(t))
        w = r.choice(alphabet) if r.random() < .8 else ""
        if r.random() < .1:
            w += r.choice(alphabet)
        ops.append((i, j, w))
        t = t[:i] + w + t[j:]
        at = i + len(w)
    return seed, ops


def behaviours(c, fams, inv=INV):
    out = c.path(f"cases{c.n_runs}.ndjson")
    n = c.tlc("Reparse", invariants=list(inv) + ["Emit"], cfgdata={"fams": fams}, emit=out,
              label=", ".join(f["label"] for f in fams), timeout=850)
    if not n:
        raise CheckError("the specification produced no behaviour")
    with open(out) as f:
        for i, l in enumerate(f):
            if i * 6 // n != (i - 1) * 6 // n:
                d = json.loads(l)
                c.sample({"open": utext(d[0])[:80], "edits": [[e["i"], e["j"], utext(e["w"])] for e in d[1][:4]]})
    return out


def describe(d, case):
    return f"[{str(d.get('detail') or case)[:600]}]"


def replay(c, op, path, env=None, **kw):
    b = c.build_harness(PKG, HF)
    n = c.replay(b, op, path, env=env, describe=describe, **kw)
    c.cov["traces_validated_against_impl"] += n
    for k, v in c.last_stats.items():
        c.cov.setdefault("observed", {})[k] = c.cov.get("observed", {}).get(k, 0) + v
    return n


def typing(c, small, frags, rest=0):
    """Every edit of small documents (a share of them drawn with the seed)."""
    seeds = list(SMALL)
    c.rng.shuffle(seeds)
    fs = [""] + c.rng.sample(TYPED[1:], min(frags, len(TYPED) - 1))
    out = [fam("every single edit of small documents", seeds[:small], fs, 1, 3, design=True)]
    if rest:
        out.append(fam("every pair of edits of tiny documents", [s for s in ["a[b", "#{a", "*a*", "#a", "- a", "/ a", "#[a]", "[a]", "\"a"]][:rest],
                       ["", "a", "]", "}", "*", "\n"], 2, 1, design=True))
    return out


def sessions(c, n, steps, size=(1, 4), local=.4):
    sc = []
    for _ in range(n):
        s = doc(c, c.rng.randint(*size)) if c.rng.random() < .7 else c.rng.choice(VALID_MARKUP + VALID_MATH + ["#" + x for x in VALID_CODE])
        sc.append(script(c, s, c.rng.randint(1, steps), MK + CD[:40] + MT[:50], c.rng.random() < local))
    return fam("editing sessions", scripts=sc)


def neighbourhoods(c, n):
    """Small edits somewhere in long documents."""
    sc = []
    for _ in range(n):
        s = doc(c, c.rng.randint(20, 36))
        sc.append(script(c, s, 3, ["a", "b1", " ", "x y", "*c*", "#x", "é", "(", ".", "1"], c.rng.random() < .3, small=True))
    return fam("small edits of long documents", scripts=sc)


def storm(c, judge, m, steps=4, size=25, local=3, chunk=400, seeds=None, frags=None, trace=None):
    p = c.path(f"storm{c.n_runs}.ndjson")
    with open(p, "w") as f:
        for k in range(max(1, m // chunk)):
            f.write(json.dumps({"Seed": c.rng.getrandbits(40), "N": min(chunk, m), "Steps": steps, "Size": size, "Local": local,
                                "Frags": [cps(x) for x in frags or MK + CD + MT], "Seeds": [cps(x) for x in (SMALL + VALID_MARKUP + VALID_MATH if seeds is None else seeds)]}) + "\n")
    b = c.build_harness(PKG, HF)
    n = c.replay(b, "storm", p, env={"VERIF_JUDGE": judge, "VERIF_CASE_LIMIT": "200", "VERIF_TRACE": trace or ""}, describe=describe)
    c.cov.setdefault("random_sessions", []).append({"judge": judge, "sessions": n * min(chunk, m), "steps": steps, "seen": c.last_stats})


# Alphabets around one context sensitive construct each.
FOCUS = {
    "links": ["http://x.y", "http://", "https://a.b/c", ",", ".", " ", "a", "b", ";", "!", "'", "*", "\n", "(", ")", "[", "]", "#x", "?", ":"],
    "brackets": ["[", "]", "[", "]", "#[", "a", " ", "\n", "*", "#x", "\n\n", "#f[", "@a["],
    "line starts": ["\n", "\n\n", "- ", "= ", "+ ", "/ ", "a", ":", " ", "  ", "//c\n", "/*c*/", "1. ", "#x", "#x\n", "*", "\r", "#[", "]"],
    "hashes": ["#", "x", ".", "y", "(", ")", "[", "]", "{", "}", ";", " ", "\n", "if ", "else ", "let ", "=", "a", "for ", "in ", "#if a {b}", "import ", "\"a\""],
    "quotes": ["\"", "\"", "'", "#x", "#(", "#", "\\", "`", "```", " ", "\n", "a", "(", ")", "[", "]", "{", "}", ":", "#{"],
    "comments": ["//", "/*", "*/", "/", "*", "\n", "a", " ", "#x", "//c\n", "- ", "[", "]", "#[", "/ a:"],
    "math": ["$", "$", "#[", "]", "#{", "}", "a", "(", ")", "_", "f(", ",", "/", " ", "\n", "#x", "\"", "[", "$a$", "\\", "//"],
    "emphasis": ["*", "_", "a", " ", "\n", "\n\n", "[", "]", "#x", "*a*", "_a_", "é", "*a _b_*", "1", "~"],
}


def deep(r):
    """A deeply nested document with a mark (U+E000) inside."""
    k, pre, post = r.randrange(3), "", ""
    for i in range(r.randint(2, 25)):
        o, x = [("#[", "]"), [("#[", "]"), ("#[", "]"), ("#{", "}"), ("#{", "}"), ("#[", "]")][i % 5], r.choice([("#[", "]"), ("#{", "}")])][k]
        pre, post = pre + o, x + post
        if r.random() < .25:
            post = " b" + post
    return pre.replace("{#", "{") + "\ue000a b" + post


def focused(c, judge, n):
    for what, frags in sorted(FOCUS.items()):
        storm(c, judge, n, steps=4, size=12, local=4, chunk=400, seeds=[], frags=frags)


def crowded(c, judge, n, trace=None, steps=40):
    storm(c, judge, n, steps=steps, trace=trace, size=0, local=1, chunk=50, seeds=[deep(c.rng) for _ in range(300)],
          frags=["*a* ", "b ", "#x ", "_c_ ", "~", " ", "] ", "[", "*", "1", "\n", "//\n"])


def E01(c):
    c.assumptions += ASSUME
    k = 8 if c.thorough else 1
    fams = typing(c, 26 if c.thorough else 9, 24 if c.thorough else 10, 9 if c.thorough else 3)
    replay(c, "reparse", behaviours(c, fams))
    replay(c, "reparse", behaviours(c, [sessions(c, 60 * k, 12), neighbourhoods(c, 12 * k)], inv=["Exact", "Covers"]))
    storm(c, "tree", 50000 * k)
    focused(c, "tree", 20000 * k)
    crowded(c, "tree", 1000 * k)
    storm(c, "tree", 800 * k, steps=120, size=40, chunk=20)
    storm(c, "tree", 4000 * k, steps=8, size=200, chunk=50)


def E02(c):
    c.assumptions += ASSUME + ["the size of the range is only judged against four times what the specification reads again plus 60 bytes"]
    k = 8 if c.thorough else 1
    fams = typing(c, 26 if c.thorough else 9, 24 if c.thorough else 10, 9 if c.thorough else 3)
    replay(c, "ranges", behaviours(c, fams))
    replay(c, "ranges", behaviours(c, [sessions(c, 40 * k, 8, (3, 8)), neighbourhoods(c, 24 * k)], inv=["Exact", "Covers"]))
    storm(c, "range", 40000 * k)
    focused(c, "range", 6000 * k)
    storm(c, "range", 4000 * k, steps=8, size=200, chunk=50)


def spans(c, path):
    """Record the numbered trees of the behaviours and have the specification judge them."""
    tr = c.path(f"traces{c.n_runs}.ndjson")
    replay(c, "spans", path, env={"VERIF_TRACE": tr})
    judge(c, tr)


def judge(c, tr):
    bad = c.path(f"bad{c.n_runs}.ndjson")
    lines = sorted(set(open(tr))) if os.path.exists(tr) else []
    if not lines:
        if c.violations:
            return
        raise CheckError("no trace was recorded")
    with open(tr, "w") as f:
        f.writelines(lines)
    c.tlc("SpanTrace", invariants=["Judge"], env={"VERIF_TRACES": tr}, emit=bad, label=f"{len(lines)} recorded histories", timeout=850)
    c.cov["recorded_histories"] = c.cov.get("recorded_histories", 0) + len(lines)
    for l in open(bad):
        h, s, what = json.loads(l)
        show = json.loads(lines[h - 1])["show"]
        c.violation(f"spans: after edit {s - 1} of [{show[:600]}]: {', '.join(what)}", {"show": show, "step": s - 1})


def E03(c):
    c.assumptions += ASSUME + ["a node outside the edited range must keep its number if twice as many numbers as there are new nodes are free around them"]
    k = 6 if c.thorough else 1
    fams = typing(c, 26 if c.thorough else 7, 24 if c.thorough else 8)
    spans(c, behaviours(c, fams))
    spans(c, behaviours(c, [sessions(c, 50 * k, 10, (1, 3))], inv=["Exact", "Covers"]))
    storm(c, "spans", 30000 * k)
    focused(c, "spans", 3000 * k)
    tr = c.path("crowded.ndjson")
    crowded(c, "spans", 3000 * k, tr, 24)
    judge(c, tr)
    storm(c, "spans", 600 * k, steps=150, size=20, local=1, chunk=20)
    storm(c, "spans", 4000 * k, steps=60, size=6, local=1, chunk=50, seeds=["#{[#{[#{[#{[#{[#{[a]}]}]}]}]}]}", "#[#[#[#[#[#[#[#[a]]]]]]]]", "#[#{[#[a] b]}]"],
          frags=["#[", "]", "#{", "}", "[", "a", "*b*", "\n\n", " ", "#x", "`r`"])


def E04(c):
    def near(x, hi=1 << 64):
        return {y for y in (x - 2, x - 1, x, x + 1, x + 2) if 0 <= y < hi}
    r = c.rng
    ids = sorted({1, 2, 3, 5, 127, 128, 255, 256, 257, 4096, 16384, 32767, 32768, 32769, 65534, 65535} |
                 {r.randrange(1, 65536) for _ in range(40 if c.thorough else 6)})
    numbers = {0, (1 << 64) - 1, (1 << 63), (1 << 48) - 1}
    for e in range(1, 64):
        numbers |= near(1 << e)
    numbers |= {r.randrange(2, 1 << 47) for _ in range(200 if c.thorough else 20)}
    parts = {0, 1, 177, (1 << 64) - 1} | near(1 << 23) | near(1 << 22)
    for e in range(8, 64, 1 if c.thorough else 3):
        parts |= {1 << e, (1 << e) - 1}
    parts |= {r.randrange(1 << r.randrange(1, 64)) for _ in range(30 if c.thorough else 5)}
    bits = lambda x: [i for i in range(64) if x >> i & 1]
    cfg = {"ids": [bits(x) for x in ids], "numbers": [bits(x) for x in sorted(numbers)], "parts": [bits(x) for x in sorted(parts)]}
    out = c.path("cases.ndjson")
    c.tlc("SpanCode", invariants=["Yields", "Emit"], constants={"NumberBits": 48, "PartBits": 23}, cfgdata=cfg, emit=out,
          label="boundary values of files, numbers and positions", timeout=850)
    small = {"ids": [bits(x) for x in range(1, 6)], "numbers": [bits(x) for x in range(0, 1 << 8)], "parts": [bits(x) for x in range(0, 16)]}
    c.tlc("SpanCode", invariants=["Yields"], constants={"NumberBits": 7, "PartBits": 3}, cfgdata=small, label="every value of a small encoding")
    replay(c, "spancode", out)
