"""B01..: the parts everything else stands on: the scanner, kinds and sets of
kinds."""
import json, os
from common import cps, utext, CheckError

PKG = "typst/syntax"
FAR = 1 << 30
CHARS = ["a", "b", "é", "中", "😀", "\ufffd", "\n"]


def op(name, s="", x=0, y=0):
    return {"op": name, "s": cps(s), "x": x, "y": y}


PLAIN = ["peek", "eat", "uneat", "done", "before", "after", "save", "back"]


def all_ops(sets, pats, ks, places):
    o = [op(n) for n in PLAIN]
    o += [op(n, x=k) for n in ("scout", "locate") for k in ks]
    o += [op(n, p) for n in ("at", "eatIf", "expect", "eatUntil", "eatWhile") for p in pats]
    o += [op(n, p) for n in ("atIn", "eatIfIn", "eatWhileIn", "eatUntilIn") for p in sets]
    o += [op(n, x=b) for n in ("from", "to", "jump") for b in places]
    o += [op("get", x=a, y=b) for a in places for b in places]
    return o


def texts(alpha, n):
    out, lay = [""], [""]
    for _ in range(n):
        lay = [x + a for x in lay for a in alpha]
        out += lay
    return out


def plan(r, text, n):
    """Operations that may succeed on the text: patterns are pieces of it."""
    ops = []
    size = len(text.encode())
    for _ in range(n):
        k = r.random()
        i = r.randrange(len(text) + 1)
        piece = text[i:i + r.choice([1, 1, 2, 3])] or r.choice(CHARS)
        if r.random() < .1:
            piece += r.choice(CHARS)
        chars = "".join(r.sample(CHARS, r.randrange(1, 5)))
        bound = len(text[:i].encode())
        place = r.choice([r.randrange(size + 1), bound, bound, size + 1, FAR])
        if k < .25:
            ops.append(op(r.choice(PLAIN)))
        elif k < .35:
            ops.append(op(r.choice(["scout", "locate"]), x=r.randrange(-4, 5)))
        elif k < .6:
            ops.append(op(r.choice(["at", "eatIf", "eatUntil", "eatWhile", "expect"]), piece))
        elif k < .8:
            ops.append(op(r.choice(["atIn", "eatIfIn", "eatWhileIn", "eatUntilIn"]), chars))
        elif k < .9:
            n = r.choice(["from", "to", "jump"])
            ops.append(op(n, x=r.choice([bound, bound, FAR]) if n == "jump" else place))
        else:
            ops.append(op("get", x=place, y=r.choice([r.randrange(size + 1), FAR])))
    return ops


def B01(c):
    c.assumptions += ["texts are valid UTF-8", "a position between the bytes of a character may be moved to either end of the character",
                      "eating an empty pattern repeatedly is left open"]
    t = c.thorough
    r = c.rng
    b = c.build_harness(PKG, ["syntax/main", "syntax/scan"])
    out = c.path("scan.ndjson")
    places = [0, 1, 2, 3, 4, 5, 7, FAR]
    fams = [
        {"texts": [cps(x) for x in texts(["a", "é", "中", "😀"], 3)], "steps": 1, "plans": [],
         "ops": all_ops(["a", "é", "中a", "a\u00ea"], ["a", "é", "aa", "aé", "中"], range(-4, 5), places)},
        {"texts": [cps(x) for x in texts(["a", "b", "é"], 3)], "steps": 2, "plans": [],
         "ops": all_ops(["a", "é", "ab"], ["a", "ab", "é"], [-1, 0, 1, 2], [0, 1, 3])},
    ]
    if t:
        fams.append({"texts": [cps(x) for x in texts(["a", "中", "😀"], 3)], "steps": 3, "plans": [],
                     "ops": all_ops(["a", "😀"], ["a", "a中"], [-1, 0, 1], [1, 4])})
    for _ in range(400 if t else 60):
        x = "".join(r.choice(CHARS) for _ in range(r.choice([4, 9, 16])))
        if r.random() < .5:
            x = "".join(r.choice(["a", "ab", "é"]) * r.randrange(1, 4) for _ in range(4))
        fams.append({"texts": [cps(x)], "steps": 0, "ops": [], "plans": [plan(r, x, 25) for _ in range(12)]})
    n = c.tlc("Scan", invariants=["InText", "Consumes", "Still", "Emit"], view="View", cfgdata={"fams": fams}, emit=out,
              label="scanner", timeout=800)
    if not n:
        raise CheckError("the specification produced no behaviour")
    c.cov["traces_validated_against_impl"] += c.replay(b, "scan", out)
    with open(out) as f:
        for i, l in enumerate(f):
            if i * 6 // n != (i - 1) * 6 // n:
                d = json.loads(l)
                c.sample({"text": utext(d[0]), "operations": [[h[0]["op"], utext(h[0]["s"]), h[0]["x"], h[0]["y"]] for h in d[1][1:6]]})


def kinds():
    import re
    t = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Kinds.tla")).read()
    t = t[t.index("NameTable == ["):]
    return re.findall(r"^  (\w+) \|->", t, re.M)


def B02(c):
    t = c.thorough
    r = c.rng
    b = c.build_harness(PKG, ["syntax/main", "syntax/kinds", "syntax/sets"])
    out = c.path("sets.ndjson")
    all_kinds = kinds()
    if len(all_kinds) < 100:
        raise CheckError("kinds of the specification")

    def fam(**k):
        return {"predefined": False, "plan": [], "kinds": [[]], "palette": [], "steps": 0, **k}
    fams = [fam(predefined=True),
            fam(kinds=[[], ["Let"], ["End", "DestructAssignment"]], palette=["End", "Let", "DestructAssignment"], steps=3),
            fam(kinds=[["If", "Hash"]], palette=["Raw"], steps=4),
            fam(predefined=True, palette=["Error", "Let", "Dots"], steps=2 if t else 1)]
    for j in range(300 if t else 60):
        p = [{"op": "new", "a": 0, "b": 0, "ks": r.sample(all_kinds, r.randrange(len(all_kinds)))}]
        base = 0
        if j % 2:
            base = 14
        for n in range(1, 40 if t else 25):
            o = r.choice(["new", "add", "add", "add", "union", "union", "clone"])
            a, d = r.randrange(base + n) + 1, r.randrange(base + n) + 1
            if r.random() < .5:
                a = base + n        # the newest
            p.append({"op": o, "a": 0 if o == "new" else a, "b": d if o == "union" else 0,
                      "ks": r.sample(all_kinds, r.randrange(4)) if o == "new" else [r.choice(all_kinds)] if o == "add" else []})
        fams.append(fam(predefined=bool(j % 2), plan=p))
    n = c.tlc("Sets", invariants=["OfKinds", "Disjointness", "Emit"], properties=["Values"], cfgdata={"fams": fams}, emit=out,
              label="sets of kinds", timeout=800)
    if not n:
        raise CheckError("the specification produced no behaviour")
    c.cov["traces_validated_against_impl"] += c.replay(b, "sets", out)
    with open(out) as f:
        for i, l in enumerate(f):
            if i * 6 // n != (i - 1) * 6 // n:
                c.sample([h[:4] for h in json.loads(l)[1][:4]])


# ---- trees as values ---------------------------------------------------------
def vop(name, **k):
    d = {"op": name, "a": 0, "p": [], "k": "Text", "w": "", "x": [], "rs": [], "hs": [], "i": 0, "j": 0}
    d.update(k)
    d["x"] = cps(d["x"]) if isinstance(d["x"], str) else d["x"]
    return d


LEAVES = ["Text", "Space", "Let", "Ident", "Int", "LeftParen", "LineComment", "Not", "As", "None", "Parbreak"]
INNER = ["Markup", "Strong", "Code", "Array", "ContentBlock", "Equation", "Params"]
PIECES = ["a", "", "é", "let", "中b", "😀", " ", "\n", "x y"]


def T01(c):
    t = c.thorough
    r = c.rng
    b = c.build_harness(PKG, ["syntax/main", "syntax/kinds", "syntax/values"])
    out = c.path("values.ndjson")
    big = 1 << 30
    fams = [{"plan": [], "steps": 3, "ops": [
        vop("leaf", k="Let", x="let"), vop("error", w="bad", hs=["h"], x="b"), vop("inner", k="Code", rs=[0, 1]), vop("inner", k="Markup"), vop("clone", a=-1),
        vop("kind", a=2, p=[0], k="Ident"), vop("kind", a=2, k="Code"), vop("hint", a=1, w="h"), vop("convert", a=2, p=[0], w="bad"), vop("expected", a=-1, w="identifier"),
        vop("expected", a=-1, w="pattern"), vop("unexpected", a=0), vop("synthesize", a=-1, i=7), vop("number", a=2, i=big, j=2), vop("number", a=-1, i=2, j=5),
        vop("replace", a=2, i=0, j=1, rs=[1]), vop("replace", a=2, i=1, j=0, rs=[0, 0])]}]
    if t:
        fams[0]["steps"] = 4
    for q in range(9000 if t else 2200):
        plan = []
        for _ in range(r.choice([6, 12, 20])):
            a = r.choice([r.randrange(40), -1, -1])
            p = [r.randrange(6) for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
            rs = [r.choice([-1, -2, r.randrange(20), r.randrange(20)]) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))]
            k = r.random()
            if k < .12:
                plan.append(vop("leaf", k=r.choice(LEAVES), x=r.choice(PIECES)))
            elif k < .18:
                plan.append(vop("error", w=r.choice(["bad", "worse"]), hs=r.sample(["h1", "h2"], r.randrange(3)), x=r.choice(PIECES)))
            elif k < .38:
                plan.append(vop("inner", k=r.choice(INNER), rs=rs))
            elif k < .46:
                plan.append(vop("clone", a=a))
            elif k < .53:
                plan.append(vop("kind", a=a, p=p, k=r.choice(LEAVES)))
            elif k < .58:
                plan.append(vop("hint", a=a, p=p, w=r.choice(["h1", "h2"])))
            elif k < .68:
                plan.append(vop(r.choice(["convert", "expected", "unexpected"]), a=a, p=p, w=r.choice(["identifier", "pattern", "expression"])))
            elif k < .70:
                plan.append(vop("synthesize", a=a, i=r.randrange(2, 99)))
            elif k < .84:
                plan.append(vop("number", a=a, i=r.choice([big, big, big, r.randrange(1, 40), r.randrange(1, 400)]), j=r.choice([2, 1000, 1 << 20])))
            else:
                plan.append(vop("replace", a=a, p=p, i=r.randrange(6), j=r.randrange(6), rs=rs))
                # once more in the same tree
                if r.random() < .7:
                    plan.insert(-1, vop("number", a=a, i=r.choice([big, big, r.randrange(5, 60)]), j=2))
                    plan.append(vop("replace", a=a, p=p, i=r.randrange(6), j=r.randrange(3), rs=rs[:2]))
        fams.append({"plan": plan, "steps": 0, "ops": []})
    # errors that gather hints, and copies of them that gather others
    for q in range(600 if t else 120):
        plan = [vop("error", w="bad", hs=["h0"] * r.randrange(4), x=r.choice(PIECES))]
        if r.random() < .5:
            plan += [vop("leaf", k="Let", x="let"), vop("inner", k="Code", rs=r.choice([[0, 1], [0], [1, 0, 0]]))]
        plan += [vop("hint", a=r.randrange(len(plan)), p=[0], w=f"h{i}") for i in range(r.randrange(5))]
        for i in range(r.randrange(2, 9)):
            k = r.random()
            if k < .35:
                plan.append(vop("clone", a=r.choice([0, -1, r.randrange(9)])))
            elif k < .45:
                plan.append(vop("inner", k="Markup", rs=r.choice([[-1], [0, -1], [r.randrange(9), r.randrange(9)]])))
            else:
                plan.append(vop("hint", a=r.choice([0, -1, -2, r.randrange(9)]), p=r.choice([[0], [], [1]]), w=f"n{i}"))
        fams.append({"plan": plan, "steps": 0, "ops": []})
    n = c.tlc("Trees", invariants=["AllSound", "Emit"], properties=["KeepsText", "One"], cfgdata={"fams": fams}, emit=out,
              label="trees as values", timeout=800)
    if not n:
        raise CheckError("the specification produced no behaviour")
    c.cov["traces_validated_against_impl"] += c.replay(b, "values", out)
    with open(out) as f:
        for i, l in enumerate(f):
            if i * 6 // n != (i - 1) * 6 // n:
                c.sample([[h[0]["op"], h[1], h[2]] for h in json.loads(l)])
