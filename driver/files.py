"""F01, F02: identities of files and virtual paths."""
import itertools, json, os
from common import cps, utext, CheckError

PKG = "typst/syntax"
HF = ["syntax/main", "syntax/files"]
SPECS = ["", "@NS/pkg:1.2.3", "@NS/pkg:1.2.4", "@NS/other:1.2.3", "@NSx/pkg:1.2.3"]


def paths(c, fams, label):
    b = c.build_harness(PKG, HF)
    out = c.path(f"cases{c.n_runs}.ndjson")
    n = c.tlc("Paths", invariants=["Normal", "Canonical", "Relative", "Emit"], emit=out, label=label, timeout=850,
              cfgdata={"fams": [{"inits": [cps(x) for x in f[0]], "joins": [cps(x) for x in f[1]], "exts": [cps(x) for x in f[2]],
                                 "steps": f[3]} for f in fams]})
    if not n:
        raise CheckError("the specification produced no behaviour")
    c.cov["traces_validated_against_impl"] += c.replay(b, "paths", out)
    with open(out) as f:
        for i, l in enumerate(f):
            if i * 4 // n != (i - 1) * 4 // n:
                d = json.loads(l)
                c.sample({"operations": [[o, utext(a)] for o, a in d[0]], "paths": [utext(x) for x in d[1]]})


def F02(c):
    k = 6 if c.thorough else 1
    segs = ["", ".", "..", "a", "b.c"]
    words = ["/".join(t) for n in (1, 2, 3, 4) for t in itertools.product(segs, repeat=n)]
    alpha = ["", "", ".", "..", "..", "a", "b", "x.y", "x.y.z", ".h", ".h.i", "...", "a b", "é.ü", "😀", "a\\b", "..a", "a..", "a..b", "d.e/f", "~"]
    r = c.rng

    def text(n):
        return ("/" if r.random() < .3 else "") + "/".join(r.choice(alpha) for _ in range(r.randint(1, n)))
    EX = ["", "x", ".x", "tar.gz", ".typ", "é"]
    DOTLESS = ["", "x", ".y"]
    paths(c, [
        (words + ["/" + w for w in words], [], [], 0),
        # (names of nothing but dots have no extension to speak of)
        ([w for w in words if not w.endswith(".")], ["..", "../a", "./b", "/", "/c", "", ".", "a/../b", "//d", "../../e", "f/", "g.h/i"], DOTLESS, 1),
        (["/" + "/".join(t) for n in (1, 2) for t in itertools.product(["a", "b.c", ".d", "e.", "..f", "g.h.i", "é.ü"], repeat=n)], [], EX, 2),
    ], "short paths")
    paths(c, [([text(5)], [text(3) for _ in range(4)], [], 3) for _ in range(60 * k)] +
             [([text(4) + "/" + r.choice(["a.b", "c", ".d", "e.f.g"])], [text(2) + "/" + r.choice(["m.n", "o", ".p"]) for _ in range(3)],
               [r.choice(EX), r.choice(EX)], 3) for _ in range(40 * k)], "random paths and operations")
    c.assumptions += ["only `/` separates components (as on Unix)", "extensions contain no separator",
                      "changing the extension of a name of nothing but dots is not exercised"]


def F01(c):
    k = 6 if c.thorough else 1
    b = c.build_harness(PKG, HF)
    r = c.rng
    base = ["a", "/a", "a/", "./a", "b/../a", "b", "a/b", "a.t", "/a.u", "A", "é", "d/a", "", "."]
    joins = ["a", "b", "../a", "/a", "./b", "/", "c/../b"]
    # short histories over few paths, spelled in several ways, in full
    fams = [
        {"pkgs": SPECS[:2], "paths": ["a", "./a", "b"], "joins": ["a"], "exts": [], "steps": 3},
        {"pkgs": SPECS[:3], "paths": ["/a.t"], "joins": ["/a.t", "a.u"], "exts": ["u", "t"], "steps": 3},
        {"pkgs": SPECS, "paths": ["a", "a/"], "joins": [], "exts": [], "steps": 3},
    ]
    for f in fams:
        f["cap"] = 1000
    total = 0
    out = c.path("hist.ndjson")

    def one(fs, label, **kw):
        nonlocal total
        o = c.path(f"h{c.n_runs}.ndjson")
        n = c.tlc("Interner", invariants=["Injective", "Emit"], emit=o, label=label, timeout=850,
                  properties=[] if kw else ["Stable"],
                  cfgdata={"fams": [dict(f, paths=[cps(x) for x in f["paths"]], joins=[cps(x) for x in f["joins"]],
                                         exts=[cps(x) for x in f["exts"]]) for f in fs]}, **kw)
        if not n:
            raise CheckError("the specification produced no behaviour")
        # a process has 65535 identities
        with open(o) as f:
            lines = f.readlines()
        per = 8000 if not kw else 3000
        for i in range(0, len(lines), per):
            p = c.path(f"h{c.n_runs}.part")
            with open(p, "w") as f:
                f.writelines(lines[i:i + per])
            c.cov["traces_validated_against_impl"] += c.replay(b, "interner", p)
        for l in (lines[len(lines) // 3], lines[-1]):
            d = json.loads(l)
            c.sample({"operations": [[h[0], h[1], utext(h[2]), h[3]] for h in d[1]]})

    one(fams, "short histories")
    for _ in range(2):
        one([{"pkgs": SPECS, "paths": r.sample(base, 6), "joins": r.sample(joins, 3), "exts": r.sample(["", "t", ".u", "v.w"], 2), "steps": 12, "cap": 1000}
             for _ in range(8)], "random histories", simulate=250 * k, depth=14)
    # all identities but a few are taken before the history
    for cap in (1, 2, 3, 5) if k == 1 else (1, 1, 2, 2, 3, 3, 4, 5, 6, 8):
        o = c.path(f"full{c.n_runs}.ndjson")
        ps = r.sample(base[:12], 5)
        c.tlc("Interner", invariants=["Injective", "Emit"], emit=o, label=f"room for {cap}", simulate=2, depth=14 + 1,
              cfgdata={"fams": [{"pkgs": SPECS, "paths": [cps(x) for x in ps], "joins": [cps(x) for x in joins[:3]], "exts": [cps("t")], "steps": 12, "cap": cap}]})
        with open(o) as f:
            for l in f.readlines()[:2]:
                p = c.path("full.part")
                with open(p, "w") as g:
                    g.write(l)
                c.cov["traces_validated_against_impl"] += c.replay(b, "interner", p, workers=1, env={"VERIF_FILL": str(65535 - cap)})
    race(c, k)


def race(c, k):
    """Programs of several threads, run together many times."""
    r = c.rng
    keys = 3
    progs = []
    ops = [["new", 1], ["new", 2], ["fake", 1], ["get"]]

    def ok(p):
        return p and p[0][0] != "get"
    two = [list(p) for n in (1, 2) for p in itertools.product(ops, repeat=n) if ok(p)]
    for a, b2 in itertools.combinations_with_replacement(two, 2):
        progs.append([a, b2])
    three = [[["new", 1]], [["new", 1], ["get"]], [["new", 2], ["new", 1]], [["fake", 1], ["new", 1]]]
    progs += [[list(x) for x in t] for t in itertools.combinations_with_replacement(three, 3)]
    out = c.path("race.ndjson")
    n = c.tlc("InternerRace", invariants=["Exclusive", "Bijection", "Agree", "Resolves", "Emit"], properties=["Terminates"], emit=out,
              cfgdata={"keys": keys, "progs": progs}, label="interleavings of two and three threads", timeout=850)
    # Long programs of many threads; what they may observe is the same in
    # every interleaving, so it is enough that the threads run one by one.
    big = []
    for _ in range(30 * k):
        t = []
        for _ in range(8):
            p = []
            for _ in range(r.randint(3, 8)):
                o = r.choice(["new", "new", "new", "fake", "get"])
                p.append(["get"] if o == "get" and p else ["new" if o == "get" else o, r.randint(1, keys)])
            t.append(p)
        big.append(t)
    big += [[[["new", x], ["get"]] for x in xs] for xs in ([1] * 8, [2] * 8, [1, 2] * 4, [1] * 6 + [3] * 2)] * 3
    n2 = c.tlc("InternerRace", invariants=["Exclusive", "Bijection", "Agree", "Resolves", "Emit"], emit=out, simulate=max(20, len(big)),
               depth=1000, cfgdata={"keys": keys, "progs": big}, label="random interleavings of eight threads", timeout=850)
    # the same observation may have been printed for many interleavings
    seen, lines = set(), []
    with open(out) as f:
        for l in f:
            d = json.loads(l)
            if (x := json.dumps(d[0])) not in seen:
                seen.add(x)
                lines.append(l)
    per = 60
    for i in range(0, len(lines), per):
        p = c.path(f"race{i}.ndjson")
        with open(p, "w") as f:
            f.writelines(lines[i:i + per])
        cnt = min(per, len(lines) - i)
        ids = sum(sum(1 for o in t if o[0] != "get") for l in lines[i:i + per] for t in json.loads(l)[0])
        times = max(5, min(200, 50000 // ids))
        for rnd in range(12 * k):
            c.cov["traces_validated_against_impl"] += c.replay(b := c.build_harness(PKG, HF), "race", p, workers=1,
                                                               env={"VERIF_RACE_TIMES": str(times)})
            c.cov["concurrent runs"] = c.cov.get("concurrent runs", 0) + c.last_stats.get("runs", 0)
    # and under the race detector
    rb = c.build_harness(PKG, HF, race=True, name="files_race")
    p = c.path("race.det.ndjson")
    with open(p, "w") as f:
        f.writelines(lines[::max(1, len(lines) // 60)])
    c.cov["traces_validated_against_impl"] += c.replay(rb, "race", p, workers=1, detector=True,
                                                       env={"VERIF_RACE_TIMES": "10", "GORACE": "halt_on_error=1 exitcode=66"})
    c.assumptions += ["the interleavings the real threads take are the scheduler's; every set of programs is run many times, "
                      "some under the race detector",
                      "identities handed out by the API are not modified by the caller"]
