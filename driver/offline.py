"""O01, O02, O03: bundling a project for offline use."""
import hashlib, itertools, json, os, re
import gen
from common import cps, utext, CheckError
from projects import *
from updates import texts, CTX, FORM, OKCHARS

join = lambda p: "/".join(map(utext, p))
FONTS = {"fonts/a.ttf": b"\x00\x01A" * 9, "fonts/sub/b.otf": b"OTTO\xff", "more fonts/c.ttf": b"x"}


def layout(w, case):
    """Where the output goes and from where the command runs."""
    idx = case[-1]
    fam = w.fams[case[0]]
    c = w.project(case[0], case[1])
    proj = os.path.join(c, "proj")
    main = join(fam["main"])
    cwd, dest, args = c, os.path.join(c, "dest"), ["-out", "dest"]
    v = idx % 6
    if v == 1:
        args = ["-out", dest]
    elif v == 2:
        dest = os.path.join(c, "not", "yet", "there")
        args = ["-out", "not/yet/there/"]
    elif v == 3:
        cwd, dest, args = proj, os.path.join(proj, "out"), []
    elif v == 4:
        args = ["-out", "./proj/../dest"]
    elif v == 5:
        cwd, dest, args = proj, os.path.join(proj, "sub.out", "x"), ["-out", os.path.join("sub.out", "x")]
    if fam["rt"].get("dest"):
        dest, args = os.path.join(c, "dest"), ["-out", os.path.join(c, "dest")]
    if len(fam["main"]) > 1 or idx % 5 == 1:
        args += ["-root", proj if idx % 4 or cwd != c else "proj"]
    if idx % 7 == 2:
        args += ["-v"]
    fonts = {}
    if idx % 9 == 4 and cwd == c:
        for p, b in FONTS.items():
            write(os.path.join(c, p), b)
        fonts = FONTS
        args += ["-font-path", "fonts:more fonts"]
        own(c)
    elif idx % 37 == 5:
        fonts = None        # cannot be read
        bad = idx // 37 % 3
        if bad:
            for p, b in FONTS.items():
                write(os.path.join(c, p), b)
            own(c)
            os.chmod(os.path.join(c, "fonts/sub/b.otf" if bad == 1 else "fonts/sub"), 0)
            args += ["-font-path", os.path.join(c, "fonts")]
        else:
            args += ["-font-path", "no/fonts"]
    if idx % 4 == 1:        # left from another bundle
        for p in [main, "libs/a/0.1.0/lib.typ", "old/x"]:
            q = os.path.join(dest, p)
            if not os.path.lexists(q) and not os.path.isdir(q):
                try:
                    write(q, "#import \"gone.typ\"\n" * 200)
                except OSError:
                    pass
        own(c)
    return c, cwd, dest, args, os.path.join(proj, main), fonts


def resolves(addr, v):
    """The place a reference in a file of the bundle leads to."""
    return comps(v) if v.startswith("/") else comps("/".join(addr[:-1]) + "/" + v)


def check(w, case, opts):
    fi, pick, ok, loose, files, copies, idx = case
    fam, what = w.fams[fi], opts["what"]
    out = []
    h = w.store(fi, pick)
    c, cwd, dest, args, main, fonts = layout(w, case)
    outside = lambda: {**{"w/" + k: v for k, v in snapshot(c, (dest, os.path.dirname(dest) if dest.endswith(("/x", "/there")) else dest, os.path.join(c, "not"))).items()},
                       **({"home/" + k: v for k, v in snapshot(h).items()} if what == "O03" else {})}
    near = lambda: sorted(x for x in os.listdir(w.top))
    if fonts is None:
        ok = loose = False
    if what == "O01" and ok and not loose and idx % 11 == 3:
        # something used is there but cannot be read
        used = [(fam["files"][i - 1]["path"]) for i, _, _ in files if not fam["files"][i - 1]["lib"]] + [p for l, p, _ in copies if not l]
        os.chmod(os.path.join(c, "proj", join(used[idx // 11 % len(used)])), 0)
        ok = False
    elif what == "O01" and ok and not loose and idx % 13 == 7 and not os.path.lexists(dest):
        # the output directory cannot be made or written
        top = os.path.join(c, "not") if dest.endswith("/there") else dest
        if idx // 13 % 2:
            write(top, "in the way")
        else:
            os.makedirs(top)
            os.chown(top, 0, 0)
            os.chmod(top, 0o555)
        ok = False
    before, beside = outside(), near()
    rc, err = w.run(h, cwd, args + [main])
    say = lambda s: out.append(f"{s}; run in {os.path.relpath(cwd, c)} with {args}; output: {err[-500:]}")
    crash = rc is None or rc not in (0, 1) or "goroutine " in err
    if what == "O03":
        after = outside()
        if near() != beside:
            say(f"{set(near()) ^ set(beside)} beside the project was changed")
        for p in sorted(set(before) | set(after)):
            if before.get(p) != after.get(p):
                say(f"{p} outside of the output directory was changed: {str(before.get(p))[:200]} to {str(after.get(p))[:200]}")
        w.clean(c)
        return out
    main_a = tuple(map(utext, fam["main"]))
    if what == "O01":
        if crash:
            m = re.search(r"^(panic|fatal error):.*", err, re.M)
            say("the command does not end within 30 s" if rc is None else f"the command crashes (exit {rc}): {m and m.group(0)}")
        elif not loose and ok and rc:
            say("bundling fails although everything used is there")
        elif not loose and not ok and not rc:
            say("bundling succeeds although something used is missing or two things have the same place")
    if rc == 0 and (ok or loose):
        texts_out = []
        for i, addr, changes in files:
            addr = tuple(map(utext, addr))
            must = not loose or addr == main_a
            got = read(dest, addr)
            if got is None:
                if must and what == "O01":
                    say(f"{'/'.join(addr)} is missing in the bundle")
                continue
            got = got.decode(errors="surrogateescape")
            texts_out.append((addr, got))
            if what == "O02":
                orig = utext(fam["files"][i - 1]["docs"][pick[i - 1] - 1])
                ch, show = [], []
                for b, e, a, place, ispkg, name, ren, bad in changes:
                    if not place:
                        continue
                    rx = r"[ \t]+as[ \t]+" + re.escape(utext(name))
                    ch.append((b, e, lambda v, p=tuple(map(utext, place)), ad=addr: tuple(resolves(ad, v)) == p, bad, a,
                               rx if ren == "must" and not bad else "(?:" + rx + ")?" if ren != "no" or (bad and ispkg) else ""))
                    show.append(join(place))
                if not Expect(orig, ch).match(got):
                    say(f"{'/'.join(addr)} is {got!r} in the bundle: {orig!r} with its references leading to {show}")
        for l, p, addr in copies:
            addr = tuple(map(utext, addr))
            got = read(dest, addr)
            if got is None:
                if not loose and what == "O01":
                    say(f"{'/'.join(addr)} is missing in the bundle")
            elif what == "O02" and got != content(fam, pick, l, p) and not (loose and any(tuple(map(utext, x[1])) == addr for x in files)):
                say(f"{'/'.join(addr)} in the bundle is not a copy: {got!r}")
        if what == "O02":
            for p, b in fonts.items():
                if read(dest, p.split("/")) != b:
                    say(f"{p} is not copied")
            if idx % 3 == 0:
                was = {k: v[3] if v[0] == "file" else v for k, v in snapshot(dest).items()}
                rc, err = w.run(h, cwd, args + [main])
                now = {k: v[3] if v[0] == "file" else v for k, v in snapshot(dest).items()}
                if rc or was != now:
                    say(f"bundling again changes the bundle: {[k for k in set(was) | set(now) if was.get(k) != now.get(k)]}")
        if opts.get("rec"):
            srcs = {a for a, _ in texts_out}
            others = [p for p in ([tuple(k.split("/")) for k, v in snapshot(dest).items() if v[0] == "file"]) if p not in srcs]
            with open(os.path.join(opts["rec"], f"{os.getpid()}.ndjson"), "a") as f:
                f.write(json.dumps({"case": [fi, pick, idx], "main": main_a, "files": texts_out, "others": others}) + "\n")
    w.clean(c)
    return out


def read(dest, addr):
    try:
        with open(os.path.join(dest, *addr), "rb") as f:
            return f.read()
    except OSError:
        return None


def content(fam, pick, l, p):
    for i, f in enumerate(fam["files"]):
        if f["lib"] == l and f["path"] == p:
            return utext(f["docs"][pick[i] - 1]).encode()
    return asset(l, join(p))


def run(c, fams, what, label):
    b = c.build_cmd("cmd/offline-typ")
    out = c.path(f"cases{c.n_runs}.ndjson")
    n = c.tlc("Offline", invariants=["Closed", "Complete", "Inside", "Emit"], view="View", cfgdata=spec_cfg(fams), emit=out, label=label, timeout=850)
    if not n:
        raise CheckError("the specification produced no behaviour")
    cases = []
    with open(out) as f:
        for l in f:
            fi, pick, ok, loose, files, copies = json.loads(l)
            cases.append((fi - 1, tuple(pick), ok, loose, files, copies))
    os.remove(out)
    cases = [x + (i,) for i, x in enumerate(sorted(cases, key=lambda x: (x[0], x[1])))]
    rec = None
    if what == "O01":
        rec = c.path(f"rec{c.n_runs}")
        os.makedirs(rec)
    run_all(c, check, fams, b, cases, {"what": what, "rec": rec})
    w = World.__new__(World)
    w.fams = fams
    for i in range(0, len(cases), max(1, len(cases) // 5)):
        c.sample(w.listing(cases[i][0], cases[i][1]))
    c.cov.setdefault("cases_that_fail_to_bundle", 0)
    c.cov["cases_that_fail_to_bundle"] += sum(not x[2] for x in cases)
    if rec:
        judge(c, rec, w, label)


def judge(c, rec, w, label):
    """Follow the references of the recorded bundles."""
    bs, seen = [], set()
    for f in sorted(os.listdir(rec)):
        with open(os.path.join(rec, f)) as fh:
            for l in fh:
                d = json.loads(l)
                if any(ord(ch) > 127 and ch not in OKCHARS for _, t in d["files"] for ch in t):
                    continue
                key = hashlib.sha1(json.dumps([d["files"], d["others"]]).encode()).digest()
                if key not in seen:
                    seen.add(key)
                    bs.append(d)
    bs.sort(key=lambda d: d["case"][2])
    if not bs:
        raise CheckError("no bundle was recorded")
    P = lambda p: [cps(x) for x in p]
    out = c.path(f"judged{c.n_runs}.ndjson")
    n = c.tlc("Bundles", invariants=["Emit"], emit=out, label=label + ": recorded bundles", timeout=850,
              cfgdata={"bundles": [{"main": P(d["main"]), "files": [{"path": P(p), "text": cps(t)} for p, t in d["files"]], "others": [P(p) for p in d["others"]]} for d in bs]})
    if n != len(bs):
        raise CheckError(f"{n} bundles judged, {len(bs)} recorded")
    with open(out) as f:
        for l in f:
            b, bad, cnt = json.loads(l)
            d = bs[b - 1]
            for p, s in bad[:3]:
                c.violation(f"in the bundle, {utext(s)!r} in {join(p)} leads to nothing in the bundle",
                            {"bundle": {"/".join(p): t for p, t in d["files"]}, "others": ["/".join(p) for p in d["others"]],
                             "project": w.listing(d["case"][0], d["case"][1])})
    c.cov["traces_validated_against_impl"] += len(bs)


# ---- what is run --------------------------------------------------------------
LIBS = ["@preview/a:0.1.0", "@preview/a:0.10.0", "@local/b-c:2.0.0", "@preview/é:1.0.0", "@local/d:0.0.1", "@preview/d:0.0.2"]
ENTRIES = ["lib.typ", "src/lib.typ", "./lib.typ", "/lib.typ", "src//x/../lib.typ", "a b.typ", "é\u00a0.typ", "back\\slash.typ", 'q"uote.typ', "中/😀.typ"]
LOAD = ['image(%)', 'image(width: 1pt, %)', 'image(alt: "none.png", %)', 'image(%, width: 2em, alt: "x.y")', 'read(%)', 'read(%, encoding: none)', 'csv(%)', 'json(%).at("k")',
        'toml(%)', 'yaml(%)', 'xml(%)', 'cbor(%)', 'let p = plugin(%)', 'bibliography(%)', 'bibliography((%, %))', 'bibliography(%, style: %)',
        'bibliography(title: none, full: true, style: %, %)', 'bibliography(style: "ieee", (%,))', 'set bibliography(style: %)', 'set bibliography(title: [T], style: %)',
        'show bibliography: set bibliography(style: "apa")', 'figure(image(%), caption: [x])', 'image((%))', 'bibliography(((%), %))', 'image(x, "none.png")', 'foo("none.png")',
        'x.image("none.png")', 'image("no" + "ne.png")', 'image("none.png".trim())', 'image(..a, "none.png")', 'let image(x) = x', '(image)("none.png")', 'raw(read(%), lang: "x")',
        'image(%)[x]', 'let f = () => image(%)', 'table(..csv(%).flatten())', 'image/*c*/', 'image(/* "none.png" */ %)', 'box(image(%))', 'read(%) + read(%)', 'image(\n  %,\n)']
PLAIN = ['"none.png"', 'image("none.png")', '// #image("none.png")\n', '`#image("none.png")`', '/* #image("none.png") */', '#"image(\\"none.png\\")"']


def libs(r, specs=LIBS):
    return [lib(x, r.choice(ENTRIES)) for x in specs]


def literal(r, s):
    """A string literal with this value."""
    t = r.random()
    if t < .8:
        return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'
    i = r.randrange(len(s))
    return '"' + s[:i].replace("\\", "\\\\").replace('"', '\\"') + "\\u{%x}" % ord(s[i]) + s[i + 1:].replace("\\", "\\\\").replace('"', '\\"') + '"'


def text_families(c, k):
    r = c.rng
    T = [t for t in texts(c, k, LIBS) if "local.typ" not in t or True]
    r.shuffle(T)
    fams = []
    for i in range(0, len(T), 60):
        fams.append(family([("main.typ", T[i:i + 60]), ("local.typ", ["= L"]), ("x", [""]), ("m", [""])], libs(r)))
    return fams


ASSETS = ["t.txt", "img/a b.png", "é.bib", "refs.bib", "d.json", "sub/deep/x.csv", "style.csl", "q\"x.png"]


def ways(r, at, to):
    """A way to write the path of a file from another one."""
    up = at.count("/")
    d = at.rsplit("/", 1)[0] + "/" if up else ""
    return r.choice(["/" + to, "../" * up + to, "../" * up + "./" + to, to[len(d):] if to.startswith(d) else "/" + to, "nodir/../" + "../" * up + to, "//" + to])


def graph(r):
    """A random project with packages and resources."""
    nl = r.choice([0, 1, 2, 3, 4])
    L = []
    for ns, nm, v in sorted({(r.choice(["preview", "preview", "local"]), r.choice(["p", "q", "p-q"]), r.choice(["0.1.0", "0.2.0", "0.10.0"])) for _ in range(nl)}):
        L.append(lib("@%s/%s:%s" % (ns, nm, v), r.choice(ENTRIES[:6]), empty=True, **({"link": True} if r.random() < .2 else {})))
    files, assets = [], []
    dirs = ["", "", "sub/", "sub/deep/", "é x/"]
    names = ["main.typ", "a.typ", "b.typ", "lib.typ", "noext"]
    for l in range(len(L) + 1):
        own_ = sorted({r.choice(dirs if l == 0 else ["", "src/", "src/x/"]) + r.choice(names) for _ in range(r.randint(1, 5 if l == 0 else 3))}
                      | ({"/".join(comps(utext(L[l - 1]["entry"])))} if l and r.random() < .97 else set()))
        res = r.sample(ASSETS, r.randint(0, 4))
        if l == 0:
            main = r.choice(own_)
        assets += [(l, p) for p in res]
        for p in own_:
            s = x = ""
            for _ in range(r.choice([0, 1, 2, 2, 3, 5])):
                if s and r.random() < .15:      # the same once more
                    s += s[len(x):]
                    continue
                x = s
                t = r.random()
                if t < .3 and L:
                    x = r.choice(L)
                    v = verstr(x["v"]) if r.random() < .97 else "7.7.7"
                    s += r.choice(CTX[:16] + ["#%\n"] * 12).replace("%", r.choice(FORM).replace("%", literal(r, "@%s/%s:%s" % (utext(x["ns"]), utext(x["name"]), v)))) + "\n"
                elif t < .6:
                    s += r.choice(CTX[:16] + ["#%\n"] * 12).replace("%", r.choice(FORM).replace("%", literal(r, ways(r, p, r.choice(own_))))) + "\n"
                elif t < .95:
                    f = r.choice(LOAD)
                    while "%" in f:
                        if not res and r.random() < .9:
                            f = "x"
                            break
                        q = r.choice(res if res and r.random() < .97 else own_ if r.random() < .8 else ["none.x"])
                        if "style: %" in f and r.random() < .4:
                            f = f.replace("style: %", 'style: "mla"', 1)
                        else:
                            f = f.replace("%", literal(r, ways(r, p, q)), 1)
                    s += r.choice(["#%\n", "#%\n", "#{ % }", "#[#%]", "= #%\n", "#f({%})", "#let x = { % }\n", "#if a { % } else { % }", "- #%\n"]).replace("%", f) + "\n"
                else:
                    s += r.choice(PLAIN + ["text", "= T"]) + "\n"
            files.append((p, [s], l))
    return family(files, L, main, assets)


def small(r):
    """Every small project of three files, resources and two packages."""
    st = {"a": '#include "%sa.typ"', "c": '#import "%ssub/c.typ": *', "main": '#import "%smain.typ"', "p": '#import "@preview/p:1.0.0"', "q": '#import "@local/q:0.1.0": x',
          "p2": '#include "@preview/p:2.0.0"', "img": '#image("%simg/x.png")', "data": '#read("/data.txt")', "none": '#import "@preview/none:1.0.0"', "lost": '#image("lost.png")',
          "out": '#include "../../x.typ"', "clash": '#import "@local/p:1.0.0"', "src": '#raw(read("%sa.typ"))', "bib": '#bibliography(("%sr.bib", "/data.txt"), style: "%sx.csl")'}
    def docs(names, up):
        return ["\n".join(st[n].replace("%s", up) for n in ns) for ns in names]
    twice = [("a", "a", "c", "p"), ("p", "c", "c", "a"), ("p", "p", "a", "a", "q", "c"), ("img", "img", "data", "a", "p"), ("p", "q", "p", "p2"), ("a", "main", "a", "c", "q")]
    few = [(), ("a",), ("c",), ("p",), ("a", "c"), ("c", "main"), ("img",), ("p", "q", "a"), ("data", "p2"), ("src", "c"), ("bib",)]
    L = [lib("@preview/p:1.0.0", "src/lib.typ"), lib("@local/q:0.1.0"), lib("@preview/p:2.0.0", "./lib.typ"), lib("@local/p:1.0.0", "src/lib.typ")]
    A = [(0, "img/x.png"), (0, "data.txt"), (0, "r.bib"), (0, "x.csl"), (1, "src/logo.svg"), (1, "data.txt"), (2, "b.wasm")]
    return [
        family([("main.typ", docs(few[1:] + twice + [("none",), ("lost",), ("out",), ("clash", "p"), ("clash",)], "")), ("a.typ", docs(few, "")), ("sub/c.typ", docs(few, "../")),
                ("src/lib.typ", ['#import "util.typ": x', '#image("/src/logo.svg")\n#read("../data.txt")'], 1), ("src/util.typ", ['#import "/src/lib.typ"\n#import "@local/q:0.1.0"'], 1),
                ("lib.typ", ['#import "@preview/p:1.0.0"\n#let w = plugin("b.wasm")'], 2)], L, assets=A),
        family([("main.typ", ['#import "@preview/p:1.0.0": a', '#import "@local/q:0.1.0"\n#include "@preview/p:2.0.0"']),
                ("src/lib.typ", docs([(), ("q",), ("p2", "p"), ("data",), ("lost",), ("none",), ("clash",), ("p",)], "") + ['#include "/src/util.typ"', '#include "../src/util.typ"', '#include "/../lib.typ"'][:2], 1),
                ("src/util.typ", ["", '#import "lib.typ"', '#image("logo.svg")', '#image("/src/logo.svg", alt: "/data.txt")', '#read("/data.txt")', '#bibliography(style: "/data.txt", ("/src/logo.svg", "../data.txt"))'], 1),
                ("lib.typ", docs([(), ("p",), ("p2",)], "") + ['#plugin("/b.wasm")', '#plugin("b.wasm")', '#bibliography("b.wasm", style: "/nature")'], 2)], L, assets=A),
    ]


def projects(c, k):
    r = c.rng
    fams = small(r)
    # literals of every way to load a file
    for f in LOAD + PLAIN:
        docs = []
        for s in ["f.txt", "/f.txt", "./sub/../f.txt", "sub/g.bin"]:
            for ctx in ["#%", "#{ % }", "#[#%]", "a #% b", "= #%\n", "#show: x => { % }", "#(a: (%, ))", "$ #% $", "$x_#{ % }/f(#{%})$"]:
                docs.append(ctx.replace("%", f.replace("%", literal(r, s))) if f not in PLAIN else f)
        fams.append(family([("main.typ", r.sample(docs, 6 if not c.thorough else len(docs)))], assets=[(0, "f.txt"), (0, "sub/g.bin")]))
        docs = [x for x in docs if f not in PLAIN]
        if docs:
            fams.append(family([("main.typ", ['#import "@preview/p:0.0.1": *']), ("lib.typ", r.sample(docs, 4 if not c.thorough else len(docs)), 1)], [lib("@preview/p:0.0.1")],
                               assets=[(1, "f.txt"), (1, "sub/g.bin"), (0, "f.txt")]))
    for e in ENTRIES:
        fams.append(family([("main.typ", ['#import "@local/m:1.0.0"', '#include "@local/m:1.0.0"']), ("/".join(comps(e)), ['#image("/i.png")\n#include "/x.typ"'], 1), ("x.typ", ["#read(\"i.png\")"], 1)],
                           [lib("@local/m:1.0.0", e)], assets=[(1, "i.png")]))
    for t in [None, "", "x", "[package]\n", '[package]\nname = "m"\nversion = "1.0.0"\n', '[package]\nname = "m"\nversion = "1.0.0"\nentrypoint = ""\n']:
        l = lib("@preview/m:1.0.0", manifest=False, toml="")
        l["toml"] = t
        fams.append(family([("main.typ", ['#import "@preview/m:1.0.0"', '#import "@preview/n:1.0.0"']), ("lib.typ", ['#include "@preview/m:1.0.0"'], 2), ("lib.typ", [""], 1)],
                           [l, lib("@preview/n:1.0.0")]))
    for _ in range(int(350 * k)):
        fams.append(graph(r))
    # things that would have the same place
    for body in ["x", "y"]:
        fams.append(family([("main.typ", ['#import "@preview/p:1.0.0"\n#import "@local/p:1.0.0": *', '#include "libs/p/1.0.0/lib.typ"\n#import "@preview/p:1.0.0"', '#import "@local/p:1.0.0"\n#read("libs/p/1.0.0/t.txt")',
                                          '#import "libs/p/1.0.0/a.typ"\n#import "@preview/p:1.0.0": *', '#import "libs/p/1.0.0/main.typ"\n#import "@preview/p:1.0.0"', '#import "@local/p:1.0.0"\n#read("libs/q/1.0.0/t.txt")']),
                            ("lib.typ", ['', '#read("t.txt")', '#import "/main.typ"'], 1), ("main.typ", [body], 1), ("lib.typ", ['#read("t.txt")'], 2), ("libs/p/1.0.0/lib.typ", [body]), ("libs/p/1.0.0/a.typ", [body]),
                            ("libs/p/1.0.0/main.typ", [body])], [lib("@preview/p:1.0.0"), lib("@local/p:1.0.0")], assets=[(1, "t.txt"), (2, "t.txt"), (0, "libs/p/1.0.0/t.txt"), (0, "libs/q/1.0.0/t.txt")]))
    return fams


def O01(c):
    k = 6 if c.thorough else 1
    run(c, projects(c, k), "O01", "projects")


def O02(c):
    k = 6 if c.thorough else 1
    run(c, text_families(c, k) + projects(c, k if c.thorough else .4), "O02", "texts and projects")


# ---- what must not be touched -----------------------------------------------
VICTIMS = [("file", "victim/x.typ", "#import \"precious\""), ("file", "victim/lib.typ", "p"), ("file", "victim/p/1.0.0/lib.typ", "q"), ("file", "x.typ", "r"), ("file", "main.typ", "t"),
           ("file", "img.png", "v"), ("file", "victim/t/y.typ", "z"), ("dir", "victim/e", None)]


def links(c):
    """Layouts of links in the output directory, from the specification."""
    out = c.path(f"links{c.n_runs}.ndjson")
    c.tlc("Rooted", constants={"MaxLinks": 3 if c.thorough else 2}, invariants=["Contained", "Emit"], emit=out, label="links in the output directory", timeout=600)
    lay = {}
    with open(out) as f:
        for l in f:
            ln, path, cls = json.loads(l)
            key = tuple(sorted(("/".join(s), ("{W}/" if a else "") + "/".join(t)) for s, a, t in ln))
            lay.setdefault(key, set()).add(cls)
    os.remove(out)
    bad = sorted(k for k, v in lay.items() if "outside" in v)
    rest = sorted(k for k in lay if "outside" not in lay[k])
    c.cov["layouts_leading_outside"] = len(bad)
    n = 4000 if c.thorough else 450
    return (c.rng.sample(bad, min(n, len(bad))) + c.rng.sample(rest, min(n // 8, len(rest))))


def O03(c):
    k = 6 if c.thorough else 1
    r = c.rng
    fams = []
    body = '#import "s/x.typ"\n#include "s/t/y.typ"\n#image("img.png")\n#read("i/j/x.png")\n#import "@preview/p:1.0.0": *'
    for ln in links(c):
        fams.append(family([("main.typ", [body]), ("s/x.typ", ["= X"]), ("s/t/y.typ", ["y"])], [lib("@preview/p:1.0.0")], assets=[(0, "img.png"), (0, "i/j/x.png")], dest=True,
                           extra=VICTIMS + [("dir", "dest", None)] + [("link", p, t) for p, t in ln]))
    odd = ["../victim/x.typ", "../../victim/x.typ", "/../victim/x.typ", "s/../../victim/x.typ", "../x.typ", "..", "/", "", ".", "a/..", "//victim/x.typ", "/victim/x.typ", "../proj/../x.typ",
           "s/../../../victim/../x.typ", "../" * 9 + "x.typ", "./../x.typ", "\\u{0}", "..\\\\x.typ", "{W}/victim/x.typ", "\\u{2e}\\u{2e}/x.typ", ".\\u{2e}/victim/x.typ", "~/x.typ", "$HOME/x.typ", "link/x.typ",
           "s/up/x.typ", "file:///x.typ", "..typ", ".../x.typ", "../dest/../x.typ", "s//..//..//x.typ"]
    forms = ['#import "%"', '#include "%"', '#image("%")', '#bibliography("%")', '#bibliography(("%", "img.png"))', '#read("%")', '#set bibliography(style: "%")', '#plugin("%")', '#csv("%")']
    noisy = VICTIMS + [("link", "proj/link", "../victim"), ("link", "proj/s/up", "../.."), ("link", "proj/abs", "{W}/victim")]
    for o in odd:
        if "{W}" in o:
            continue
        docs = [f.replace("%", o) for f in (forms if c.thorough else r.sample(forms, 5))]
        rt = dict(dest=r.random() < .5, extra=noisy)
        fams.append(family([("main.typ", docs), ("s/x.typ", [""])], assets=[(0, "img.png")], **rt))
        fams.append(family([("s/t/main.typ", [d.replace("img.png", "../../img.png") for d in docs]), ("s/x.typ", [""])], main="s/t/main.typ", assets=[(0, "img.png")], **rt))
        fams.append(family([("main.typ", ['#import "@preview/p:1.0.0"']), ("lib.typ", docs, 1), ("s/x.typ", [""], 1)], [lib("@preview/p:1.0.0")], assets=[(1, "img.png")], **rt))
    for e in ["../lib.typ", "../../../victim/lib.typ", "../" * 8 + "x.typ", "/../../lib.typ", "..", "", "s/../../lib.typ"]:
        l = lib("@preview/p:1.0.0", e, manifest=False)
        fams.append(family([("main.typ", ['#import "@preview/p:1.0.0"', '#include "@preview/p:1.0.0"'])], [l], extra=noisy, dest=True))
    for _ in range(int(200 * k)):
        f = graph(r)
        f["rt"]["extra"] = VICTIMS
        fams.append(f)
    run(c, fams, "O03", "adversarial projects")
