"""U01, U02: updating package imports."""
import json, os, re
import gen
from common import cps, utext, CheckError
from projects import *

UPDATED = re.compile(r'updated "([^"]*)":\n\tnew version "([^"]*)"\n\told version "[^"]*"')
SUMMARY = ("updated project Typst files", "update needed for transitive dependencies")
REPORT = re.compile(r'in library "([^"]*)", update needed for "([^"]*)":\s*new version "([^"]*)"\s*old version "([^"]*)"')


def expected(text, ch):
    return Expect(text, [(b, e, lambda v, s=utext(s): v == s, stay, e, "") for b, e, s, stay in ch])


def check(w, case, opts):
    """One project: update it, compare everything observable."""
    fi, pick, alts, idx = case
    fam = w.fams[fi]
    out = []
    h = w.store(fi, pick)
    c = w.project(fi, pick)
    proj, dest = os.path.join(c, "proj"), os.path.join(c, "dest")
    main = "/".join(map(utext, fam["main"]))
    inplace = idx % 3 == 0
    args = ["-i"] if inplace else ["-out", "dest" if idx % 2 else dest]
    top = proj
    if len(fam["main"]) > 1 or idx % 5 == 1:
        args += ["-root", proj if idx % 4 else "proj"]
    if any(x.get("loc") == "universe" for x in fam["libs"]):
        args += ["-universe", os.path.join(h, "universe")]
    if inplace:
        dest = proj
    before = snapshot(c)
    rc, err = w.run(h, c, args + [os.path.join("proj", main)])
    say = lambda s: out.append(f"{s}; options {args}; output: {err[-600:]}")
    if rc is None:
        say("the command did not end within 30 s")
    elif rc not in (0, 1) or "goroutine " in err or "panic:" in err:
        say(f"the command crashed (exit {rc})")
    if out:
        w.clean(c)
        return out
    files, loose = alts[0][0], any(a[2] for a in alts)
    oks = {a[1] for a in alts}
    if not loose:
        if rc == 0 and True not in oks:
            say("the command succeeds although something cannot be found")
        if rc == 1 and False not in oks:
            say("the command fails although everything can be found")
    new = {}
    for i, f in enumerate(fam["files"]):
        if f["lib"]:
            continue
        p = "/".join(map(utext, f["path"]))
        orig = utext(f["docs"][pick[i] - 1])
        try:
            with open(os.path.join(dest, p), "rb") as fh:
                got = fh.read().decode(errors="surrogateescape")
        except FileNotFoundError:
            got = None
        new[p] = got
        if files[i]:
            if got is None:
                if rc == 0 and not (loose and p != main):
                    say(f"{p} is not written")
            elif not (expected(orig, files[i][0]).match(got) or (got == orig and inplace and (rc == 1 or (loose and p != main)))):
                say(f"{p} becomes {got!r} and not {apply(orig, files[i][0])!r}")
        elif got is not None and got != orig and not loose:
            say(f"{p} is changed although it is not used: {got!r}")
    after = snapshot(c)
    for p, v in before.items():
        if inplace and p.startswith("proj/") and p[5:] in new:
            continue
        if after.get(p) != v:
            say(f"{p} was changed or removed")
    if rc == 0 and not loose and len({a[1] for a in alts}) == 1:
        seen = {}
        for m in REPORT.finditer(err):
            seen[m.groups()] = seen.get(m.groups(), 0) + 1
        must = set.intersection(*[{tuple(x) for x in a[3]} for a in alts])
        may = set.union(*[{tuple(x) for x in a[3]} for a in alts])
        for l, p, old, nw, n in must:
            k = (l, p, nw, old)
            if seen.get(k, 0) != n:
                say(f"the outdated import of {old} (latest {nw}) in {p} of {l} is reported {seen.get(k, 0)} times, not {n}")
        for l, p, nw, old in seen:
            if not any(x[:4] == (l, p, old, nw) for x in may):
                say(f"reports an outdated import of {old} (latest {nw}) in {p} of {l}")
        # what was updated in the project is told, and the summary is true
        told = {}
        for m in UPDATED.finditer(err):
            told[m.groups()] = told.get(m.groups(), 0) + 1
        want = {}
        for i, f in enumerate(fam["files"]):
            if not f["lib"] and files[i]:
                p = "/".join(map(utext, f["path"]))
                orig = utext(f["docs"][pick[i] - 1])
                for b, e, v, _ in files[i][0]:
                    old = orig[b + 1:e - 1]
                    if old != utext(v):
                        k = (p, utext(v))
                        want[k] = want.get(k, 0) + 1
        if told != want:
            say(f"tells of updates {told}, made were {want}")
        if (SUMMARY[0] in err) != bool(want):
            say(f"says that files of the project were updated: {SUMMARY[0] in err}")
        if bool(must) == bool(may) and (SUMMARY[1] in err) != bool(must):
            say(f"says that dependencies need an update: {SUMMARY[1] in err}")
    if inplace and rc == 0 and idx % 2 == 0:
        rc2, err2 = w.run(h, c, args + [os.path.join("proj", main)])
        for p, v in after.items():
            if v[0] == "file":
                with open(os.path.join(c, p), "rb") as fh:
                    if fh.read() != v[3]:
                        say(f"updating again changes {p}")
    w.clean(c)
    return out


def apply(text, ch):
    s, pos = "", 0
    for b, e, v, _ in ch:
        s += text[pos:b] + '"' + utext(v) + '"'
        pos = e
    return s + text[pos:]


def run(c, fams, invariants, label):
    b = c.build_cmd("cmd/update-typ")
    out = c.path(f"cases{c.n_runs}.ndjson")
    n = c.tlc("Update", invariants=list(invariants) + ["Emit"], view="View", cfgdata=spec_cfg(fams), emit=out, label=label, timeout=850)
    if not n:
        raise CheckError("the specification produced no behaviour")
    group = {}
    with open(out) as f:
        for l in f:
            fi, pick, take, files, ok, bad, notes = json.loads(l)
            libs = fams[fi - 1]["libs"]
            name = lambda i: "@%s/%s:%s" % (utext(libs[i - 1]["ns"]), utext(libs[i - 1]["name"]), verstr(libs[i - 1]["v"]))
            ns = [(name(a), "/".join(map(utext, p)), utext(o), utext(w), k) for a, p, o, w, k in notes]
            group.setdefault((fi - 1, tuple(pick)), []).append((files, ok, bad, ns))
    os.remove(out)
    cases = [(fi, pick, alts, i) for i, ((fi, pick), alts) in enumerate(sorted(group.items()))]
    run_all(c, check, fams, b, cases)
    w = World.__new__(World)
    w.fams = fams
    for i in range(0, len(cases), max(1, len(cases) // 5)):
        c.sample(w.listing(cases[i][0], cases[i][1]))
    return cases


# ---- what is run --------------------------------------------------------------
CTX = ["#%", "#{%}", "#{ let x = 1; %\n x }", "#[#%]", "= H #%\ntext", "- i #%\n- j", "+ #%", "/ t: #%", "#let f() = { %\n 1 }",
       "#let g = [#%]", "#if true { % } else [#%]", "#for x in y { % }", "#while false { % }", "#show: it => { %; it }", "*a #%* _#%_",
       "#f({ % })", "#f[#%]", "#f(x: { % }, ..{ % })", "// #%", "/* #% */", "a /* x */ #% // y", "`#%`", "```typ\n#%\n```", "\\#%", "#\"x\" %",
       "x % y", "#%;y", "#context { % }", "#(a: { % }, b: [#%])", "#%\n#%", "é😀中 #% \u2028x", "#%\r\ny", "\"#%\"", "@r[#%]",
       "#{ % /* c */ }", "#{{{ % }}}", "#{ % } #( { % })", "https://x.y/#% #%", "#let x = {\n  %\n}", "#set text(font: { % })", "#return { % }",
       "#{ x = { % } }", "#{ (x) => { % } }", "#%//c", "#%/*c*/ z", "#{\n  %\n  %\n}", "<l>#%", "a~#% -- b", "#[*#%*]#%",
       "$#{ % }$", "$x_(#{ % })/2$ #%", "$f(#{ % }, [#%])$", "$ #[#%] $", "$a$ #% $b$", "$/* #% */ \"#%\"$", "$ #{ % }\n &= #[#%] \\ $", "#f($#{ % }$)"]
BAD = ["#[ #%", "#{ %", "#( %", "#% )", "#f( { % }", "*#%", "#% %", "#%%", "#{ % % }", "#let #%", "#if { % }", "#\"#%", "#%x", "#% as", "#{)%}", "#for {%}",
       "/* #%", "`#%", "#% :", "$#%$", "$ #% $", "$#{ % }", "$#%\n$", "$ % $", "$f(#%)$"]
FORM = ['import %', 'import %: x', 'import %: *', 'import % as y', 'import % as y: x, z as w', 'import %: (x, y.z)', 'import(%)', 'import ((%)): x',
        'include %', 'include (%)', 'import %:x', 'import/*c*/%', 'import %/*c*/as y']


def spaced(r, form):
    """The form with blanks and comments between its tokens."""
    out = ""
    for t in re.findall(r"\w+|[^\w\s]|\s+", form):
        out += t
        while r.random() < .4:
            out += r.choice([" ", "/*c*/", "  ", "\t", "/**/", " /* import \"@preview/a:0.1.0\" as z */ "] + (["\n", "//c\n"] if "(" in out and ")" not in out else []))
    return out


def pkgs(c):
    """Ways to write package imports, and strings that are none."""
    good = ["@preview/a:0.1.0", "@preview/a:0.9.9", "@preview/a:0.10.0", "@preview/a:00.1.0", "@preview/a:1.0.0", "@local/a:0.1.0", "@local/b-c:2.0.0",
            "@preview/b-c:0.0.1", "@preview/é:1.0.0", "@local/é:0.0.1", "@preview/only:1.2.3"]
    return good


LIBS = ["@preview/a:0.1.0", "@preview/a:0.9.9", "@preview/a:0.10.0", "@preview/a:0.2.0", "@local/a:0.1.0", "@local/a:0.1.1", "@local/b-c:2.0.0",
        "@local/b-c:1.9.9", "@preview/b-c:0.0.1", "@preview/b-c:0.0.2", "@preview/b-c:0.0.10", "@preview/é:1.0.0", "@local/é:0.0.1", "@local/é:0.0.2",
        "@preview/only:1.2.3"]
NOISE = [("dir", "preview", None, "a/dev"), ("dir", "preview", None, "a/1.0"), ("file", "preview", None, "a/9.9.9"),
         ("dangling", "preview", None, "a/8.0.0"), ("dir", "preview", None, "a/01.9.0"), ("dir", "local", None, "a/.git"),
         ("file", "local", None, "b-c/README"), ("dir", "preview", None, "b-c/0.0.11-beta"), ("file", "preview", None, "only/typst.toml")]


def strings(s):
    """Literals with the value s."""
    return ['"' + s + '"', '"' + s.replace("@", "\\u{40}") + '"', '"' + s.replace("/", "\\u{2F}").replace("0", "\\u{30}") + '"']


def texts(c, k, good=None):
    r = c.rng
    good = ['"%s"' % p for p in good or pkgs(c)]
    odd = strings("@preview/a:0.1.0")[1:] + ['"local.typ"', '"@preview/a"', '"@preview/a:0.1"', '" @preview/a:0.1.0"', '"@preview/a:0.1.0 "', '"@pre\\view/a:0.1.0"',
                                             '"@preview/a:0.1.0\\n"', '"@preview/a:0.1.0\n"', 'sys', 'x.y', '"\\"@preview/a:0.1.0"']
    out = []
    for ctx in CTX:
        for f in FORM:
            out.append(ctx.replace("%", f.replace("%", r.choice(good))))
    for f in FORM:
        for s in good + odd:
            out.append("#" + f.replace("%", s))
    for f in FORM:
        for _ in range(12 * k):
            out.append(r.choice(CTX[:16] + ["#%\n"] * 16).replace("%", spaced(r, f).replace("%", r.choice(good))))
    for ctx in BAD:
        for f in r.sample(FORM, 3):
            out.append(ctx.replace("%", f.replace("%", r.choice(good))))
    frag = ["#", "import ", "include ", '"@preview/a:0.1.0"', '"@local/a:0.1.0"', "(", ")", " as ", ":", "*", "x", ",", "\n", ";", "{", "}", "[", "]", "//", " "]
    for _ in range(500 * k):
        out.append(r.choice(["#import ", "#import ", "#{import ", "#include ", "#[#import "]) + "".join(r.choice(frag) for _ in range(r.randint(1, 6))))
    for _ in range(500 * k):
        n = r.randint(2, 6)
        s = ""
        for _ in range(n):
            t = r.random()
            if t < .55:
                s += r.choice(CTX).replace("%", r.choice(FORM).replace("%", r.choice(good)))
            elif t < .6:
                s += r.choice(CTX).replace("%", r.choice(FORM).replace("%", r.choice(odd)))
            elif t < .65:
                s += r.choice(BAD).replace("%", r.choice(FORM).replace("%", r.choice(good)))
            else:
                s += r.choice(["= T", "text *b*", "- x", "/ a: b", "#let a = 1", "", "  ", "#f(1)[x]", "`r`", "\\", "// c", "@r", "<l>", "\"q\" it's"])
            s += r.choice(["\n", "\n\n", "\n", "\n  ", " \n", "\r\n"])
        out.append(s)
    for d in gen.markup_docs(r, 200 * k, 120):
        d = list(d)
        i = r.randint(0, len(d))
        s = r.choice(CTX).replace("%", r.choice(FORM).replace("%", r.choice(good)))
        out.append("".join(d[:i]) + "\n" + s + "\n" + "".join(d[i:]))
    seen, res = set(), []
    for t in out:
        if t not in seen and all(ord(ch) < 128 or ch in OKCHARS for ch in t):
            seen.add(t)
            res.append(t)
    return res


OKCHARS = "éßα中あ\u2028\u2029😀\u00a0"


def U01(c):
    k = 6 if c.thorough else 1
    r = c.rng
    T = texts(c, k)
    fams = []
    for i in range(0, len(T), 60):
        fams.append(family([("main.typ", T[i:i + 60]), ("local.typ", ["= L"]), ("x", [""]), ("m", [""])], [lib(x) for x in LIBS], noise=NOISE if i % 120 else [],
                           linked=[("local", "a"), ("preview", "b-c")] if i % 3 == 0 else []))
    # which versions are installed, and which one is imported
    V = ["0.1.0", "0.1.10", "0.2.0", "0.10.0", "1.0.0", "4294967295.0.0", "0.0.4294967295", "10.0.0", "9.0.0", "0.9.0"]
    VS = V if c.thorough else r.sample(V, 5)
    for m in range(1 << len(VS)):
        if c.thorough and bin(m).count("1") > 4:
            continue
        inst = [v for i, v in enumerate(VS) if m >> i & 1]
        docs = ['#import "@preview/a:%s"' % v for v in VS] + ['#import "@local/a:%s": *' % v for v in r.sample(VS, 2)]
        fams.append(family([("main.typ", docs)], [lib("@preview/a:" + v, **r.choice([{}, {}, {"loc": "universe"}, {"link": True}])) for v in inst]
                           + [lib("@local/a:" + v) for v in r.sample(inst, min(len(inst), r.randint(0, 2)))]))
    for _ in range(40 * k):
        names = ["a", "b", "a-b"]
        L = sorted({(r.choice(["preview", "local"]), r.choice(names), ".".join(r.choice(["0", "1", "2", "9", "10", "11", "99", "100"]) for _ in range(3)))
                    for _ in range(r.randint(1, 9))})
        imp = ["@%s/%s:%s" % (x if r.random() < .9 else "other", y, z if r.random() < .7 else "1.1.1") for x, y, z in (r.choice(L) for _ in range(12))]
        docs = ["".join('#import "%s"%s\n' % (r.choice(imp), r.choice(["", ": *", " as q"])) for _ in range(r.randint(1, 4))) for _ in range(4)]
        fams.append(family([("main.typ", docs)], [lib("@%s/%s:%s" % x, **(r.choice([{}, {}, {"loc": "universe"}]) if x[0] == "preview" else {})) for x in L],
                           noise=r.choice([[], NOISE])))
    run(c, fams, ["Upward", "Settled"], "texts and installed versions")


def U02(c):
    k = 6 if c.thorough else 1
    r = c.rng
    fams = []
    # every small project of three files and two packages
    st = {"main": '#import "%smain.typ"', "a": '#include "%sa.typ"', "c": '#import "%ssub/c.typ": *', "missing": '#import "missing.typ"', "p": '#import "@preview/p:1.0.0"',
          "q": '#import "@local/q:0.1.0": x', "none": '#import "@preview/none:1.0.0"', "out": '#include "../../x.typ"', "abs": '#import "/a.typ"'}
    sub = {"main": "../", "a": "../", "c": "../"}
    def docs(names, rel):
        return ["\n".join((st[n] % (sub.get(n, "") if rel else "")) if "%s" in st[n] else st[n] for n in ns) for ns in names]
    few = [(), ("a",), ("c",), ("p",), ("a", "c"), ("c", "main"), ("missing",), ("p", "q", "a"), ("abs", "none"), ("out",)]
    libs = [lib("@preview/p:1.0.0", "src/lib.typ"), lib("@local/q:0.1.0"), lib("@local/q:0.2.0"), lib("@preview/p:1.0.1")]
    fams.append(family([("main.typ", docs(few[1:], False)), ("a.typ", docs(few, False)), ("sub/c.typ", docs(few, True)),
                        ("src/lib.typ", ['#import "util.typ": x', '#import "/src/util.typ"'], 1), ("src/util.typ", ['#import "lib.typ"\n#import "@local/q:0.1.0"'], 1),
                        ("lib.typ", ['#import "@preview/p:1.0.0"'], 2)], libs))
    # packages only
    pk = ['', '#import "@local/q:0.1.0"', '#import "@preview/p:1.0.0": x\n#import "@preview/p:1.0.0": y', '#import "x.typ"', '#include "../x.typ"', '#import "missing.typ"',
          '#import "@preview/r:0.0.1"']
    fams.append(family([("main.typ", ['#import "@preview/p:1.0.0"', '#import "@local/q:0.1.0"\n#import "@preview/r:0.0.1"']),
                        ("src/lib.typ", pk, 1), ("lib.typ", pk, 2), ("x.typ", pk[:3], 1), ("src/x.typ", ['#import "lib.typ"'], 1), ("x.typ", ['#import "/lib.typ"'], 2)],
                       libs + [lib("@preview/r:0.0.1", toml="", manifest=False), lib("@preview/r:0.1.0")]))
    # manifests
    tomls = [None, "", "[package]\n", "x", '[package]\nname = "m"\nversion = "1.0.0"\n', '[package]\nversion = "1.0.0"\nentrypoint = "lib.typ"\n',
             '[package]\nname = "m"\nversion = "1.0"\nentrypoint = "lib.typ"\n', "[template]\npath = \"t\"\nentrypoint = \"m.typ\"\n", 'package = 1', "\xff\x00",
             '[package]\nname = 3\nversion = "1.0.0"\nentrypoint = "lib.typ"']
    for t in tomls:
        l = lib("@preview/m:1.0.0", manifest=False, toml="")
        l["toml"] = t
        fams.append(family([("main.typ", ['#import "@preview/m:1.0.0"', '#import "@preview/n:1.0.0"']), ("lib.typ", ['#import "@preview/m:1.0.0"'], 2), ("lib.typ", [""], 1)],
                           [l, lib("@preview/n:1.0.0")]))
    for e in ["lib.typ", "./lib.typ", "/lib.typ", "src/../lib.typ", "src//lib.typ", "a b.typ", "é.typ", "none/../../lib.typ", "src/lib.typ"]:
        f = [("main.typ", ['#import "@preview/m:1.0.0"']), ("lib.typ", ['#import "@preview/n:1.0.0"\n#import "x.typ"'], 1), ("x.typ", [""], 1),
             ("src/x.typ", ['#import "@preview/n:1.0.0": *'], 1)]
        if "/".join(comps(e)) != "lib.typ" and not e.startswith("none"):
            f.append(("/".join(comps(e)), ['#import "x.typ"\n#include "/lib.typ"'], 1))
        fams.append(family(f, [lib("@preview/m:1.0.0", e, empty=True), lib("@preview/n:1.0.0"), lib("@preview/n:1.0.1")]))
    # larger random projects
    for _ in range(450 * k):
        fams.append(random_project(r))
    run(c, fams, ["Complete", "Upward"], "import graphs")


def random_project(r, loads=False):
    dirs = ["", "", "sub/", "sub/deep/", "é x/"]
    names = ["main.typ", "a.typ", "b.typ", "c.typ", "lib.typ", "t.txt"]
    nl = r.choice([0, 0, 1, 2, 3, 5])
    L = []
    for ns, nm, v in sorted({(r.choice(["preview", "preview", "local"]), r.choice(["p", "q", "p-q"]), r.choice(["0.1.0", "0.2.0", "0.10.0", "1.0.0"])) for _ in range(nl)}):
        L.append(lib("@%s/%s:%s" % (ns, nm, v), r.choice(["lib.typ", "src/lib.typ", "./lib.typ", "/lib.typ"]), empty=True,
                     **({"loc": "universe"} if ns == "preview" and r.random() < .2 else {})))
    own = {l: sorted({r.choice(dirs if l == 0 else ["", "src/", "src/x/"]) + r.choice(names) for _ in range(r.randint(1, 6 if l == 0 else 3))}
                     | ({"/".join(comps(utext(L[l - 1]["entry"])))} if l and r.random() < .95 else set())) for l in range(nl and len(L) + 1 or 1)}
    if not own[0]:
        own[0] = ["main.typ"]
    files = []
    for l, ps in own.items():
        for p in ps:
            s = ""
            for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
                t = r.random()
                if t < .35 and L:
                    x = r.choice(L)
                    v = verstr(x["v"]) if r.random() < .9 else "7.7.7"
                    ref = "@%s/%s:%s" % (utext(x["ns"]), utext(x["name"]), v)
                elif t < .97:
                    q = r.choice(ps)
                    up = p.count("/")
                    d = p.rsplit("/", 1)[0] + "/" if up else ""
                    ref = r.choice(["/" + q, "../" * up + q, "../" * up + "./" + q, (q[len(d):] if q.startswith(d) else "/" + q), "nodir/../" + "../" * up + q])
                else:
                    ref = r.choice(["missing.typ", "../" * (p.count("/") + 1) + "main.typ", "", ".", "sub", "@preview/nope:1.0.0", "a\\u{0}b"])
                s += r.choice(CTX[:16] + ["#%\n"] * 12).replace("%", r.choice(FORM).replace("%", '"' + ref + '"')) + "\n"
            files.append((p, [s], l))
    main = r.choice(own[0])
    return family(files, L, main)
