"""C01: the command that prints syntax trees."""
import json, os, re, shutil, subprocess
import gen
from common import cps, utext, CheckError
from projects import run_all, snapshot, own, write, unescape, comps
from syntax import MK, CD, MT, VALID_MARKUP, VALID_MATH, NESTED_PROGS, CHARS, ASSUME, mutants, random_docs

Q = r'"(?:[^"\\\n]|\\.)*"'
ROW = [("L", re.compile(rf'^( *)leaf \(kind=({Q})\) text=({Q})$')),
       ("I", re.compile(rf'^( *)inner \(kind=({Q})\)()$')),
       ("E", re.compile(rf'^( *)error \(text=({Q})\) error=({Q})$'))]
ESC = {"a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "\\": 92, '"': 34, "'": 39}


def unquote(q):
    """The text a Go string literal in double quotes denotes."""
    out, i, s = bytearray(), 1, q[1:-1]
    i = 0
    while i < len(s):
        if s[i] != "\\":
            out += s[i].encode()
            i += 1
            continue
        e = s[i + 1]
        n = {"x": 2, "u": 4, "U": 8}.get(e)
        if n:
            v = int(s[i + 2:i + 2 + n], 16)
            out += bytes([v]) if e == "x" else chr(v).encode()
            i += 2 + n
        else:
            out.append(ESC[e])
            i += 2
    return out.decode()


def message(m):
    return m["f"].replace("%", utext(m["a"]))


def parse_row(l):
    for t, r in ROW:
        m = r.match(l)
        if m:
            try:
                a, b = unquote(m.group(2)), unquote(m.group(3)) if t != "I" else ""
            except (KeyError, ValueError, UnicodeDecodeError):
                return None
            if len(m.group(1)) % 2:
                return None
            return {"d": len(m.group(1)) // 2, "t": t, "k": "" if t == "E" else a, "x": {"L": b, "I": "", "E": a}[t], "m": b if t == "E" else ""}
    return None


def show(r):
    return "  " * r["d"] + {"L": "leaf {k} {x!r}", "I": "inner {k}", "E": "error {x!r} {m!r}"}[r["t"]].format(**r)


def C01(c):
    c.assumptions += ASSUME[:1] + ASSUME[1:] + ["texts are quoted in any way that denotes them"]
    t = c.thorough
    r = c.rng
    k = 12 if t else 3
    flat = lambda ds: ["".join(d) if isinstance(d, (list, tuple)) else d for d in ds]
    texts = list(dict.fromkeys(
        flat(VALID_MARKUP) + flat(VALID_MATH) + flat(NESTED_PROGS) + ["", "\n", "a", "#", "$", "\"", "\\", "`", "%d %s %v%", "100%", "a\\%q", "\ta\r\nb", "“x”"]
        + [x for x in CHARS] + ["`" + x + "`" for x in CHARS] + ["#\"" + x + "\"" for x in CHARS if x not in "\"\\"] + ["[" * n + "#[" * n for n in (1, 5, 12)]
        + flat(random_docs(c, MK + CD + MT, 150 * k, 14, ("", "#", "$"))) + flat(gen.markup_docs(r, 120 * k)) + flat(gen.expr_docs(r, 120 * k))
        + flat(mutants(c, flat(VALID_MARKUP), 100 * k, MK, 3))))
    # leaves of many characters
    for n in (255, 256, 257, 300, 1023, 1024, 1025) + ((4095, 4096, 4097, 9000) if t else ()):
        for x in ("x" * n, "/*" + "c" * n + "*/", "#" + "v" * n, "`" + "r" * n + "`", "#\"" + "s" * n + "\"", "$" + "1" * n + "$", "é" * (n // 2), "#" + "1" * n + "q"):
            if n < 400 or r.random() < .3:
                texts.append(x)
    sessions = []
    queue = list(texts)
    r.shuffle(queue)
    while queue:
        n = r.choice([1, 1, 2, 3, 5, 8, 8])
        files, queue = queue[:n], queue[n:]
        args = list(range(1, len(files) + 1))
        if r.random() < .2:
            args.insert(r.randrange(len(args) + 1), r.choice(args))
        if r.random() < .15:
            args.insert(r.randrange(len(args) + 1), 0)
        sessions.append({"files": files, "args": args})
    sessions += [{"files": ["a"], "args": a} for a in ([], [0], [1, 0], [0, 1], [1, 0, 1], [1, 1, 1])]
    out = c.path("dump.ndjson")
    n = c.tlc("Dump", invariants=["Whole", "Shape", "Emit"], view="View", emit=out, label="printing sessions", timeout=800,
              cfgdata={"sessions": [{"files": [cps(x) for x in s["files"]], "args": s["args"]} for s in sessions]})
    if n != len(sessions):
        raise CheckError(f"{n} sessions of {len(sessions)}")
    b = c.build_cmd("cmd/parse-typ")
    lines = nodes = 0
    for j, l in enumerate(open(out)):
        si, failed, rows = json.loads(l)
        s = sessions[si - 1]
        d = c.path(f"s{j}")
        os.makedirs(d)
        names = [r.choice(["f%d.typ", "some file %d.typ", "é%d", "%d.txt"]) % i for i in range(len(s["files"]))]
        for nm, x in zip(names, s["files"]):
            with open(os.path.join(d, nm), "w", newline="", encoding="utf-8") as f:
                f.write(x)
        missing = r.choice(["missing.typ", "no/such.typ", "."])
        argv = [names[a - 1] if a else missing for a in s["args"]]
        if j % 3 == 0:
            argv = [os.path.join(d, a) for a in argv]
        what = f"parse-typ {' '.join(argv)} (files {s['files']!r:.400})"

        def bad(msg):
            c.violation(f"{what}: {msg}", {"session": s, "argv": argv})
        try:
            p = subprocess.run([b] + argv, cwd=d, capture_output=True, timeout=60)
        except subprocess.TimeoutExpired:
            bad("no answer in 60 s")
            continue
        if (p.returncode != 0) != failed:
            bad(f"exit status {p.returncode}, specified {'a failure' if failed else 'success'}: {p.stderr[-300:]!r}")
        if failed and not p.stderr:
            bad("fails without a message")
        want = [x for f in rows for x in f]
        for x in want:
            x["x"], x["m"] = utext(x["x"]), message(x["m"]) if x["t"] == "E" else ""
            if x["t"] == "E":
                x["k"] = ""
        try:
            got = p.stdout.decode().split("\n")
        except UnicodeDecodeError:
            bad("the output is no UTF-8")
            continue
        if got.pop() != "":
            bad("the last line is not terminated")
        for i in range(max(len(got), len(want))):
            g = parse_row(got[i]) if i < len(got) else None
            w = want[i] if i < len(want) else None
            if g != w:
                bad(f"line {i + 1} is specified as {show(w) if w else 'none'}, got {got[i] if i < len(got) else 'none'}")
                break
        for nm, x in zip(names, s["files"]):
            if open(os.path.join(d, nm), "rb").read() != x.encode():
                bad(f"{nm} was changed")
        lines += len(want)
        if j < 6:
            c.sample({"files": s["files"], "arguments": s["args"], "lines": len(want), "failed": failed})
    c.cov["traces_validated_against_impl"] += n
    c.cov["lines compared"] = lines


def show_path(top, base_abs, parts):
    """A spelling on the command line; "t" is the scratch directory."""
    return (top + "/" if base_abs else "") + "/".join(parts) if parts or base_abs else "."


def located(w, case, opts):
    """One command line: update or bundle, and look where things went."""
    cwd, kind, root, fabs, file, files, want, r_at, f_at, idx = case
    cmd = opts["cmd"]
    out = []
    w.n += 1
    top = os.path.join(w.top, f"p{w.n}")
    h = os.path.join(w.top, "homes", f"home{w.n}")
    real = lambda p: os.path.join(top, *p[1:]) if p else "/"
    os.makedirs(real(cwd), exist_ok=True)
    if kind != "all":
        os.makedirs(real(r_at), exist_ok=True)
    main = real(f_at)
    whole = kind != "all" and want == "placed"
    m = '#import "n.typ": x\n#import "@local/p:0.1.0"\n' + ('#include "/k.typ"\n' if whole else "")
    n = '#let x = 1\n#import "@local/p:0.1.0": y\n'
    src = {main: m, os.path.join(os.path.dirname(main), "n.typ"): n}
    if whole:
        src[os.path.join(real(r_at), "k.typ")] = n
    if idx % 5 == 0:        # the same names elsewhere
        for d in ("a", "ab", "b", "a/b", "."):
            for x in ("m.typ", "n.typ", "k.typ"):
                q = os.path.normpath(os.path.join(top, d, x))
                src.setdefault(q, "#let other = 1\n")
    for p, x in src.items():
        write(p, x)
    for v in ("0.1.0", "0.2.0"):
        d = os.path.join(h, ".local/share/typst/packages/local/p", v)
        write(os.path.join(d, "typst.toml"), '[package]\nname = "p"\nversion = "%s"\nentrypoint = "lib.typ"\n' % v)
        write(os.path.join(d, "lib.typ"), "#let y = 2\n")
    own(h)
    own(top)
    inplace = cmd == "update-typ" and idx % 3 == 0 and kind != "all"
    dest = os.path.join(top, "z.out")
    args = ["-out", dest]
    if inplace:
        args = ["-i"]
    elif idx % 4 == 1:
        dest, args = os.path.join(real(cwd), "out"), []
    if kind == "all":
        args += ["-root", "/" if idx % 2 else "//"]
    elif kind != "none":
        args += ["-root" if idx % 2 else "--root", show_path(top, kind == "abs", root)]
    arg = show_path(top, fabs, file)
    args += {0: [], 1: [arg], 2: [arg, arg]}[files]
    before = snapshot(top)
    rc, err = w.run(h, real(cwd), args)
    after = snapshot(top)
    say = lambda s: out.append(f"{cmd}: {s}; run in {os.path.relpath(real(cwd), top)} with {args}, scratch directory {top}; output: {err[-400:]}")
    files_of = lambda s: {k: v for k, v in s.items() if v[0] != "dir"}
    changed = sorted(k for k in set(files_of(before)) | set(files_of(after)) if before.get(k) != after.get(k))
    if rc is None or rc not in (0, 1, 2) or "goroutine " in err:
        say(f"the command crashes or does not end (exit {rc})")
    elif want == "refused":
        if rc == 0:
            say("the command succeeds although " + ("the file is not in the project" if files == 1 else "there is not one file to process"))
        if changed:
            say(f"the command is to refuse but changes {changed}")
    elif rc:
        say("the command fails")
    else:
        base = real(r_at)
        new = lambda x: x.replace("p:0.1.0", "p:0.2.0") if cmd == "update-typ" else x
        need = {}
        for p, x in src.items():
            if x != "#let other = 1\n":
                need[os.path.relpath(p, base)] = new(x)
        into = base if inplace else dest
        have = {}
        for k in changed:
            q = os.path.join(top, k)
            if os.path.commonpath([q, into]) != into:
                say(f"{k} is changed")
            else:
                have[os.path.relpath(q, into)] = q
        for p, x in need.items():
            if p not in have:
                say(f"{p} is not written")
                continue
            with open(have[p], newline="") as f:
                got = f.read()
            if cmd == "update-typ":
                if got != x:
                    say(f"{p} is {got!r}")
                continue
            for v in re.findall(r'"((?:[^"\\]|\\.)*)"', got):
                v = unescape(v)
                q = "/".join(comps(v) if v.startswith("/") else comps(os.path.dirname(p) + "/" + v))
                if not os.path.isfile(os.path.join(into, q)):
                    say(f"{v} in {p} leads to {q}, where nothing is")
        if cmd == "update-typ" and set(have) - set(need):
            say(f"{sorted(set(have) - set(need))} written besides")
    shutil.rmtree(top)
    shutil.rmtree(h)
    return out


def C02(c):
    c.assumptions += ["no symbolic links on the way to the file", "spellings of up to %s components" % (3 if c.thorough else 2),
                      "the commands run as an unprivileged user in scratch directories"]
    out = c.path("located.ndjson")
    n = c.tlc("Located", invariants=["Walked", "Found", "Always", "Emit"], constants={"MaxRoot": 3 if c.thorough else 2, "MaxFile": 2}, emit=out,
              label="command lines", timeout=800)
    cases = sorted(json.loads(l) for l in open(out))
    if not cases:
        raise CheckError("no command lines")
    c.cov["command lines specified"] = len(cases)
    # every kind of command line, and of those a sample
    groups = {}
    for x in cases:
        groups.setdefault((x[1], x[3], x[5], x[6], tuple(x[0]), len(x[8]) - len(x[7]), x[2] != [y for y in x[2] if y[:1] not in ("", ".")]), []).append(x)
    k = 60 if c.thorough else 16
    pick = []
    for g in sorted(groups):
        pick += c.rng.sample(groups[g], min(k, len(groups[g])))
    c.rng.shuffle(pick)
    c.cov["kinds of command lines"] = len(groups)
    for x in pick[:4]:
        c.sample({"in": x[0], "root": [x[1], x[2]], "file": [x[3], x[4]], "files named": x[5], "outcome": x[6]})
    for cmd in ("update-typ", "offline-typ"):
        run_all(c, located, [None] * 1, c.build_cmd("cmd/" + cmd), [tuple(x) + (i,) for i, x in enumerate(pick)], {"cmd": cmd}, plain=True)
