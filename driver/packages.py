"""K01: package specifications, versions and bounds."""
import itertools, json, re
from common import cps, utext, CheckError

PKG = "typst/syntax"
HF = ["syntax/main", "syntax/packages"]
NONASCII = ["é", "中", "α", "\u0301", "٣", "½", "😀", "\u00a0", "−", "_", "-"]


def fam(seeds, frags=(), steps=0, bounds=()):
    return {"seeds": [cps(s) for s in seeds], "frags": [cps(f) for f in frags], "steps": steps, "bounds": [cps(x) for x in bounds]}


def K01(c):
    k = 6 if c.thorough else 1
    t = 1 if c.thorough else 0
    r = c.rng
    nums = ["0", "1", "2", "9", "10", "4294967294", "4294967295", "99999999", "2147483648"]
    odd = nums + ["", "00", "01", "4294967296", "10000000000", "-1", "+1", "1a", " 1", "1 ", "x", "1_0", "0x1", "٣", "1e1", "04294967295",
                  "18446744073709551617", "½"]
    few = ["0", "1", "2", "10", "4294967295"]
    vs = [".".join(x) for x in itertools.product(few, repeat=3)]
    bs = [".".join(x) for n in (1, 2, 3) for x in itertools.product(few[:4] if not c.thorough else few, repeat=n)]
    chars = [chr(i) for i in range(128)] + NONASCII
    tmpl = ["@a%/b:1.2.3", "@%/b:1.2.3", "@a/%:1.2.3", "@a/b%:1.2.3", "@a/b%1.2.3", "@a%b:1.2.3", "@a/b:%1.2.3", "@a/b:1%2.3", "@a/b:1.2.3%",
            "%@a/b:1.2.3", "@a/b:1.%.3", "@a/b%", "@a%b", "1.2%", "1%", "%1.2.3", "%"]
    fams = [
        fam(["", "@", "@a/b", "@a/b:"], ["@", "a", "/", ":", "1", ".", "0", "-"], 5 + t),
        fam(["1.", "", "@a/b:1."], ["1", "0", ".", "42949672", "95", "96"], 5 + t),
        fam([".".join(x) for n in (1, 2, 3, 4) for x in itertools.product(odd if n < 3 else r.sample(odd, 8), repeat=n)]),
        fam(["@n/p:" + ".".join(x) for x in itertools.product(r.sample(odd, 9), repeat=3)]),
        fam([x.replace("%", ch) for x in tmpl for ch in chars]),
        fam(["@" + n + "/" + p + ":" + v for n in NAMES for p in NAMES for v in ("1.2.3", "0.0.0", "1.2")]),
        fam(vs, bounds=bs),
        fam([".".join(r.choice(nums) for _ in range(3)) for _ in range(60 * k)],
            bounds=[".".join(r.choice(nums) for _ in range(r.randint(1, 3))) for _ in range(60)]),
    ]
    b = c.build_harness(PKG, HF)
    out = c.path("cases.ndjson")
    n = c.tlc("Packages", invariants=["RoundTrip", "Ordered", "Emit"], view="View", emit=out, cfgdata={"fams": fams},
              label="texts and comparisons", timeout=850)
    if not n:
        raise CheckError("the specification produced no behaviour")
    c.cov["traces_validated_against_impl"] += c.replay(b, "packages", out)
    with open(out) as f:
        for i, l in enumerate(f):
            if i * 10 // n != (i - 1) * 10 // n:
                d = json.loads(l)
                c.sample([d[0], utext(d[1])] + ([utext(d[2]), d[3]] if d[0] == "compare" else [{q: w["ok"] for q, w in d[2].items()}]))
    c.assumptions += ["numbers may be written with leading zeros and are printed without",
                      "texts are valid UTF-8; names beyond ASCII use representatives of the classes of characters"]


NAMES = ["a", "preview", "a-b", "a_b", "_", "_a", "-a", "a1", "1a", "é", "中中", "A", "a.b", "a b", "a-", "α\u0301", "a٣", "", "@a", "a/b", "let", "a:"]


# ---- manifests ---------------------------------------------------------------
def val(x):
    if isinstance(x, str):
        return {"t": "str", "s": cps(x), "a": []}
    if isinstance(x, list):
        return {"t": "arr", "s": [], "a": [cps(y) for y in x]}
    return {"t": x[0], "s": [], "a": []}


OTHER = {"int": ["3", "-1", "0x1f"], "bool": ["true", "false"], "float": ["1.5", "inf"], "table": ["{ a = 1 }", "{}"], "mixed": ['["a", 1]', "[1]", '[["a"]]', "[true]"],
         "ints": ["[1, 2]", "[1.5]"], "date": ["1979-05-27", "1979-05-27T07:32:00Z"]}


def quote(r, s):
    if r.random() < .3 and not any(c in "'" or ord(c) < 32 for c in s):
        return "'" + s + "'"
    out = ""
    for ch in s:
        if ch in '"\\':
            out += "\\" + ch
        elif ch in "\n\t\r":
            out += {"\n": "\\n", "\t": "\\t", "\r": "\\r"}[ch]
        elif ord(ch) < 32 or r.random() < .02:
            out += "\\u%04x" % ord(ch) if ord(ch) < 65536 else "\\U%08x" % ord(ch)
        else:
            out += ch
    if r.random() < .1 and '"' not in s and "\r" not in s:
        return '"""\n' + out + '"""'
    return '"' + out + '"'


def value(r, v):
    if v["t"] == "str":
        return quote(r, utext(v["s"]))
    if v["t"] == "arr":
        items = [quote(r, utext(y)) for y in v["a"]]
        if r.random() < .3:
            return "[\n  " + ",\n  ".join(items) + (",\n]" if items else "]")
        return "[" + ", ".join(items) + (r.choice(["", ","]) if items else "") + "]"
    return r.choice(OTHER[v["t"]])


def toml(r, fields, secs):
    """A text that sets the fields and opens the sections."""
    order = ["package", "template", "tool", "other"]
    r.shuffle(order)
    top, body = [], []
    for s in order:
        fs = [(f, value(r, v)) for q, f, v in fields if q == s]
        if not fs and s not in secs:
            continue
        r.shuffle(fs)
        eq = r.choice([" = ", "=", "  =\t"])
        k = r.random()
        if k < .15 and fs and "\n" not in "".join(x for _, x in fs):
            top.append(f"{s}{eq}{{ " + ", ".join(f + " = " + x for f, x in fs) + " }")
        elif k < .3 and fs:
            top += [f"{s}.{f}{eq}{x}" for f, x in fs]
        else:
            body.append(r.choice(["[%s]", "[ %s ]", "# c\n[%s] # d"]) % s)
            body += [(f if r.random() < .8 else '"%s"' % f if "." not in f else f) + eq + x + r.choice(["", "", " # x = 1"]) for f, x in fs]
        if r.random() < .2:
            body.append("")
    return "\n".join(top + body) + r.choice(["", "\n"])


BASE = [("package", "name", "demo"), ("package", "version", "1.2.3"), ("package", "entrypoint", "src/lib.typ")]
TMPL = [("template", "path", "t"), ("template", "entrypoint", "main.typ")]
WORDS = ["a", "x y", "é", "", "\"q\"", "a\\b", "1.0", "[package]", "# no comment", "tab\there", "line\nline", "中😀", "'", "@preview/a:1.0.0"]


def known_manifest(d, case):
    """go-toml panics on a date where a text or a list is expected."""
    if d["kind"] == "panic" and re.match(r"panic: reflect.Set: value of type (time.Time|toml.Local\w+) is not assignable to type (string|\[\]string)$", d["what"]):
        return "manifest-date"


def K02(c):
    t = c.thorough
    k = 6 if t else 1
    r = c.rng

    def mf(base, choices=(), sections=(), specs=(), steps=0):
        return {"base": [{"f": [s, f], "v": val(v)} for s, f, v in base], "choices": [{"f": list(f), "vs": [val(v) for v in vs]} for f, vs in choices],
                "sections": list(sections), "specs": [{"name": cps(n), "version": cps(v)} for n, v in specs], "steps": steps}
    wrong = [("int",), ("bool",), ("float",), ("table",), ("mixed",), ("date",)]
    str_wrong = wrong + [["a"]]
    arr_wrong = wrong + ["a"]
    names = ["name", "entrypoint", "license", "description", "homepage", "repository"]
    lists = ["authors", "keywords", "categories", "disciplines", "exclude"]
    unknown = [("package", "zzz"), ("template", "zzz"), ("tool", "zzz"), ("other", "zzz"), ("package", "names")]
    specs = [("demo", "1.2.3"), ("demo", "1.2.4"), ("demo", "1.3.3"), ("demo", "2.2.3"), ("demos", "1.2.3"), ("Demo", "1.2.3"), ("dem", "1.2.3")]
    nums = ["0", "1", "12", "13", "14", "4294967295"]
    versions = ["0.1.0", "0.0.0", "1.2", "1", "1.2.3.4", "", "a", "1.2.x", "1.2.-3", "01.2.3", "4294967295.0.0", "4294967296.0.0", " 1.2.3", "v1.2.3"]
    bounds = [".".join(r.choice(nums) for _ in range(n)) for n in (1, 2, 3) for _ in range(30)] + ["0", "0.13", "0.13.0", "0.13.1", "0.13.2", "0.14", "0.12.9", "1", "", "x", "0.", "0.13.1.0"]
    fams = [
        mf([], [((s, f), [v]) for s, f, v in BASE + TMPL], ["package", "template", "tool", "other"], specs[:2], 5 if t else 4),
        mf(BASE, [(("package", f), [w for w in WORDS if w or f not in ("name", "entrypoint")] + str_wrong) for f in names], specs=specs, steps=1),
        mf(BASE, [(("package", f), [[], ["a"], WORDS] + arr_wrong) for f in lists], specs=specs[:1], steps=1),
        mf(BASE + TMPL, [(("template", f), [w for w in WORDS if w or f == "thumbnail"] + str_wrong) for f in ("path", "entrypoint", "thumbnail")], specs=specs[:1], steps=2 if t else 1),
        mf(BASE, [(u, ["a", ["a"]] + wrong) for u in unknown], ["tool", "other", "template"], specs[:1], 2),
        mf(BASE + TMPL, [(("package", "version"), versions + [("bool",), ("table",), ["1.2.3"]])], ["tool"], specs + [("demo", "0.1.0"), ("demo", "0.0.0")], 2),
        mf(BASE, [(("package", "compiler"), list(dict.fromkeys(bounds)) + [("bool",), ("table",), ["0.1"]])], [], specs[:3], 1),
    ]
    for _ in range(150 * k):
        b = list(BASE) + (TMPL if r.random() < .4 else [])
        b += [("package", f, r.choice(WORDS)) for f in r.sample(names[2:], r.randrange(5))]
        b += [("package", f, [r.choice(WORDS) for _ in range(r.randrange(4))]) for f in r.sample(lists, r.randrange(6))]
        if r.random() < .5:
            b.append(("package", "compiler", r.choice(bounds)))
        b += [(s, f, r.choice(["x", ["y"], ("int",), ("table",)])) for s, f in r.sample(unknown, r.randrange(4))]
        b = [(s, f, r.choice(["m", "my-pkg", "é"]) if f == "name" else ".".join(r.choice(nums) for _ in range(3)) if f == "version" else v) for s, f, v in b]
        own = [v for s, f, v in b if f == "version"][0]
        nm = [v for s, f, v in b if f == "name"][0]
        mut = own.split(".")
        mut[r.randrange(3)] = r.choice(nums)
        sp = [(nm, own), (nm + "x", own), (nm, ".".join(mut)), (nm, "1.2.3")]
        fams.append(mf(b, [((r.choice(["package", "template"]), r.choice(names + lists)), [r.choice(str_wrong + ["s"])])], specs=sp, steps=1))
    out = c.path("manifests.ndjson")
    n = c.tlc("Manifest", invariants=["OnlyNeeded", "OneFits", "Emit"], view="View", emit=out, label="manifests being written", timeout=800,
              cfgdata={"fams": fams, "current": cps("0.13.1")})
    if not n:
        raise CheckError("the specification produced no behaviour")
    cases = c.path("manifest_cases.ndjson")
    total = 0
    with open(cases, "w") as f:
        for i, l in enumerate(open(out)):
            fields, secs, ok, tmpl, fit, vs = json.loads(l)
            case = {"accepted": ok, "template": tmpl, "version": [], "compiler": [], "str": {}, "arr": {}, "specs": []}
            if ok:
                case["version"], case["compiler"] = [utext(x) for x in vs[0]], [utext(x) for x in vs[1]]
                for s, q, v in fields:
                    if v["t"] == "str":
                        case["str"][s + "." + q] = utext(v["s"])
                    elif v["t"] == "arr":
                        case["arr"][s + "." + q] = [utext(x) for x in v["a"]]
                case["specs"] = [{"name": utext(p["name"]), "version": utext(p["version"]), "fits": y} for p, y in fit]
            for _ in range(2):
                case["toml"] = toml(r, sorted(fields, key=str), secs)
                f.write(json.dumps(case) + "\n")
                total += 1
            if i * 6 // n != (i - 1) * 6 // n:
                c.sample({"manifest": case["toml"], "accepted": ok})
    b = c.build_harness(PKG, ["syntax/main", "syntax/manifest"])
    c.cov["traces_validated_against_impl"] += c.replay(b, "manifest", cases, classify=known_manifest)
    c.assumptions += ["required fields that are empty, and versions written as numbers, are left open", "manifests are well-formed TOML 1.0 without duplicate keys"]
