"""X01..X03: the line index and replacing texts."""
import json, os
from common import cps, utext, CheckError

HF = ["syntax/main", "syntax/lines"]
PKG = "typst/syntax"
INV = ("TableExact", "OneLineEach", "Increasing", "Minimal")
A = ["a", "\n", "\r", "é", "😀", "\u2028"]
# Pairs sharing first or last bytes of their encodings.
B = ["é", "ã", "\u2029", "©", "😀", "😁", "🐀", "中", "丯", "a", "\r", "\n", "\x0b", "\x0c", "\x85", "\u2028", "\u3000"]
ASSUME = ["texts are valid UTF-8 and edits start and end between characters",
          "positions inside a surrogate pair are only required not to leave the character"]


def fam(label, seeds, frags=(), news=(), steps=0, conv=False, every=1, scripts=None):
    sd = [{"text": cps(s), "script": []} for s in seeds]
    for s, ops in scripts or []:
        sd.append({"text": cps(s), "script": [{"op": o, "i": i, "j": j, "w": cps(w)} for o, i, j, w in ops]})
    return {"label": label, "seeds": sd, "frags": [cps(x) for x in frags], "news": [cps(x) for x in news],
            "steps": steps, "conv": conv, "every": every}


def texts(alpha, n):
    out = [""]
    lay = [""]
    for _ in range(n):
        lay = [x + a for x in lay for a in alpha]
        out += lay
    return out


def history(c, alpha, length, steps, edits=True):
    """A seed text and a random history of edits and replacements of it."""
    r = c.rng
    def txt(n):
        return "".join(r.choice(alpha) for _ in range(r.randint(0, n)))
    t = seed = txt(length)
    ops = []
    for _ in range(steps):
        if r.random() < (0.7 if edits else 0.1):
            i = r.randint(0, len(t))
            j = min(len(t), i + r.choice([0, 0, 1, 1, 2, 3, length]))
            # Prefer the places between a CR and its LF.
            k = [x for x in range(1, len(t)) if t[x - 1] == "\r"]
            if k and r.random() < 0.3:
                i = r.choice(k)
                j = max(i, j) if r.random() < .5 else i
            w = txt(r.choice([0, 1, 2, 5]))
            ops.append(("edit", i, j, w))
            t = t[:i] + w + t[j:]
        else:
            k = r.randrange(5)
            if k == 0:
                w = txt(length)
            elif k == 1:
                w = t
            else:
                w = list(t)
                for _ in range(r.randint(1, 3)):
                    i = r.randint(0, len(w))
                    if r.random() < .5:
                        w[i:i + r.randint(0, 2)] = list(txt(3))
                    else:
                        w[i:i] = w[max(0, i - 2):i]
                w = "".join(w)
            ops.append(("replace", 0, 0, w))
            t = w
    return seed, ops


def run(c, fams, ops, inv=INV):
    b = c.build_harness(PKG, HF)
    out = c.path(f"cases{c.n_runs}.ndjson")
    n = c.tlc("Lines", invariants=list(inv) + ["Emit"], cfgdata={"fams": fams}, emit=out,
              label=", ".join(f["label"] for f in fams), timeout=850)
    if not n:
        raise CheckError("the specification produced no behaviour")
    for o in ops:
        c.cov["traces_validated_against_impl"] += c.replay(
            b, o, out, describe=lambda d, case: f"[{d.get('detail') or case[:200]}]")
    with open(out) as f:
        for i, l in enumerate(f):
            if i * 6 // n != (i - 1) * 6 // n:
                d = json.loads(l)
                c.sample({"seed": utext(d[0]), "operations": [[o["op"], o["i"], o["j"], utext(o["w"])] for o in d[1]]})
    os.remove(out)


def scripts(c, label, n, alpha=B, length=14, steps=24, edits=True, conv=False, every=4):
    return fam(label, [], scripts=[history(c, alpha, c.rng.choice([4, length]), steps, edits) for _ in range(n)],
               conv=conv, every=every)


def X01(c):
    c.assumptions += ASSUME
    t = c.thorough
    run(c, [
        fam("one edit of every short text", texts(["a", "\n", "\r", "é"], 3), frags=texts(["a", "\n", "\r", "😀"], 2 if t else 1), steps=1),
        fam("two edits around terminators", texts(["\n", "\r", "a"], 2), frags=["", "\n", "\r", "b"], steps=2),
        fam("every terminator", texts(["a", "\r", "\n", "\x0b", "\x0c", "\x85", "\u2028", "\u2029", "\x1c", "\t"], 3 if t else 2), frags=["", "\n"], steps=1),
    ] + ([fam("three edits around terminators", ["\r\n", "a\r", "\n\r", "\r\r\n"], frags=["", "\n", "\r"], steps=3)] if t else []),
        ["line_table"])
    run(c, [scripts(c, "long histories", 6000 if t else 1500)], ["line_table", "source_table"])
    run(c, [scripts(c, "longer texts", 800 if t else 120, A, 80, 30)], ["line_table", "source_table"])


def X02(c):
    c.assumptions += ASSUME
    t = c.thorough
    inv = INV + ("Invertible",)
    run(c, [fam("every short text", texts(A, 5 if t else 4), conv=True),
            fam("every character", texts(B, 3 if t else 2), conv=True)], ["line_conversions"], inv)
    run(c, [fam("one edit", texts(["a", "\n", "\r", "😀"], 2), frags=["", "\n", "é", "😀\r"], steps=1, conv=True),
            scripts(c, "long histories", 1500 if t else 300, conv=True, every=6),
            scripts(c, "longer texts", 150 if t else 30, A, 50, 18, conv=True, every=9)],
        ["line_conversions", "source_conversions"], inv)


def X03(c):
    c.assumptions += ASSUME
    t = c.thorough
    small = texts(["a", "é", "\u2029"], 3)
    run(c, [
        fam("every pair of short texts", small, news=small, steps=1),
        fam("characters sharing bytes", texts(["é", "ã", "©", "😀", "😁", "🐀"], 2), news=texts(["é", "ã", "😀", "🐀", "😁"], 2), steps=1),
        fam("terminators", texts(["a", "\r", "\n"], 3), news=texts(["a", "\r", "\n"], 3 if t else 2), steps=1),
        fam("repetitions", ["a" * k for k in range(7)] + ["ab" * k for k in range(1, 5)], news=["a" * k for k in range(7)] + ["ab" * k for k in range(1, 5)] + ["aab", "aba", "baa"], steps=2),
    ], ["line_table"])
    run(c, [scripts(c, "histories of replacements", 6000 if t else 1500, B, 14, 20, edits=False, every=2)], ["line_table", "source_table"])
