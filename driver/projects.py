"""Projects and package stores on disk, and running the commands on them.

The commands run as an unprivileged user in a scratch directory of their own,
with home and cache directories inside it, so that whatever a changed command
does to paths can reach nothing else."""
import hashlib, json, multiprocessing, os, re, shutil, stat, subprocess, tempfile
from common import cps, utext, CheckError

UID = 65534
ENV = {"PATH": "/usr/bin:/bin", "LANG": "C.UTF-8"}


class Unescape(Exception):
    pass


def unescape(s):
    """Value of the inside of a Typst string literal."""
    out, i = [], 0
    while i < len(s):
        if s[i] != "\\":
            out.append(s[i]); i += 1; continue
        m = re.compile(r'\\(?:([\\"nrt])|u\{([0-9a-fA-F]+)\}|(.)|$)', re.S).match(s, i)
        if m.group(1):
            out.append({"n": "\n", "r": "\r", "t": "\t"}.get(m.group(1), m.group(1)))
        elif m.group(2):
            v = int(m.group(2), 16)
            out.append(chr(v) if v < 0x110000 and not 0xd800 <= v < 0xe000 else m.group(0))
        else:
            out.append(m.group(0))
        i = m.end()
    return "".join(out)


def comps(path):
    """Components of a path below the root."""
    out = []
    for c in path.split("/"):
        if c in ("", "."):
            continue
        if c == ".." and out and out[-1] != "..":
            out.pop()
        else:
            out.append(c)
    return out


LIT = r'("(?:[^"\\]|\\.)*")'


class Expect:
    """A text with literals (and renames) of which only the value matters."""

    def __init__(self, text, changes):
        """changes: [b, e, check(value) -> bool, may stay, after] in order, after: regexp."""
        rx, pos, self.checks = "", 0, []
        for b, e, chk, stay, a, after in changes:
            rx += re.escape(text[pos:b]) + LIT + re.escape(text[e:a]) + after
            self.checks.append((text[b:e], chk, stay))
            pos = a
        rx += re.escape(text[pos:])
        self.rx = re.compile(rx, re.S)
        self.text = text

    def match(self, got):
        m = self.rx.fullmatch(got)
        if not m:
            return False
        for i, (orig, chk, stay) in enumerate(self.checks):
            lit = m.group(i + 1)
            if stay and lit == orig:
                continue
            if not chk(unescape(lit[1:-1])):
                return False
        return True


def write(path, data, mode=0o644):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode())


def own(top):
    os.chown(top, UID, UID)
    for d, ds, fs in os.walk(top):
        for x in ds + fs:
            os.lchown(os.path.join(d, x), UID, UID)


def snapshot(top, skip=()):
    """What is below a directory: kind, content, mode."""
    out = {}
    for d, ds, fs in os.walk(top):
        ds[:] = [x for x in ds if os.path.join(d, x) not in skip]
        for x in ds + fs:
            p = os.path.join(d, x)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                v = ("link", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                v = ("dir", stat.S_IMODE(st.st_mode))
            else:
                with open(p, "rb") as f:
                    v = ("file", stat.S_IMODE(st.st_mode), st.st_mtime_ns, f.read())
            out[os.path.relpath(p, top)] = v
    return out


def asset(lib, path):
    """Content of a file that is not a source file: any bytes."""
    return hashlib.sha256(f"{lib}{path}".encode()).digest()[:7] + b"\x00\xff\r\n#import \"@p/x:1.0.0\"\n"


def verstr(v):
    return ".".join(utext(x) for x in v)


class World:
    """The scratch directory of one worker process."""

    def __init__(self, base, fams, binary):
        self.top = tempfile.mkdtemp(prefix="w.", dir=base)
        os.chmod(self.top, 0o755)
        os.chown(self.top, UID, UID)
        self.fams, self.bin = fams, binary
        self.stores = {}
        self.n = 0

    def store(self, fi, pick):
        """Home directory with the packages of a family."""
        fam = self.fams[fi]
        rt = fam.get("rt", {})
        key = (fi, tuple(p for p, f in zip(pick, fam["files"]) if f["lib"]))
        if key in self.stores:
            return self.stores[key]
        if len(self.stores) > 40:
            for h in self.stores.values():
                shutil.rmtree(h)
            self.stores = {}
        h = os.path.join(self.top, f"home{self.n}")
        self.n += 1
        os.makedirs(h)
        dirs = []
        for l, lib in enumerate(fam["libs"], 1):
            d = os.path.join(self.nsdir(h, utext(lib["ns"]), lib.get("loc")), utext(lib["name"]), verstr(lib["v"]))
            if lib.get("link"):
                real = os.path.join(h, "dev", f"{l}")
                os.makedirs(real)
                os.makedirs(os.path.dirname(d), exist_ok=True)
                os.symlink(real, d)
            else:
                os.makedirs(d, exist_ok=True)
            dirs.append(d)
            if lib["toml"] is not None:
                write(os.path.join(d, "typst.toml"), lib["toml"])
        for i, f in enumerate(fam["files"]):
            if f["lib"]:
                write(os.path.join(dirs[f["lib"] - 1], *map(utext, f["path"])), utext(f["docs"][pick[i] - 1]))
        for a in fam["assets"]:
            if a["lib"]:
                p = "/".join(map(utext, a["path"]))
                write(os.path.join(dirs[a["lib"] - 1], p), asset(a["lib"], p))
        for kind, ns, loc, rel in rt.get("noise", []):
            p = os.path.join(self.nsdir(h, ns, loc), rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if os.path.lexists(p):
                continue
            if kind == "dir":
                os.makedirs(p)
            elif kind == "file":
                write(p, "x")
            elif kind == "dangling":
                os.symlink("/nonexistent/x", p)
            elif kind == "move":
                pass
        for ns, name in rt.get("linked", []):       # the package's directory is a link
            p = os.path.join(self.nsdir(h, ns, None), name)
            if os.path.isdir(p):
                os.makedirs(os.path.join(h, "moved"), exist_ok=True)
                os.rename(p, os.path.join(h, "moved", ns + name))
                os.symlink(os.path.join(h, "moved", ns + name), p)
        own(h)
        self.stores[key] = h
        return h

    def nsdir(self, h, ns, loc):
        if loc == "universe":
            return os.path.join(h, "universe", "packages", ns)
        if ns == "local":
            return os.path.join(h, ".local", "share", "typst", "packages", ns)
        return os.path.join(h, "cache" if self.xdg(h) else ".cache", "typst", "packages", ns)

    def xdg(self, h):
        return int(os.path.basename(h)[4:]) % 2 == 0

    def project(self, fi, pick):
        """A fresh directory with the project in proj/."""
        fam = self.fams[fi]
        self.n += 1
        w = os.path.join(self.top, f"c{self.n}")
        proj = os.path.join(w, "proj")
        os.makedirs(proj)
        for i, f in enumerate(fam["files"]):
            if not f["lib"]:
                write(os.path.join(proj, *map(utext, f["path"])), utext(f["docs"][pick[i] - 1]))
        for a in fam["assets"]:
            if not a["lib"]:
                p = "/".join(map(utext, a["path"]))
                write(os.path.join(proj, p), asset(0, p))
        for kind, rel, to in fam.get("rt", {}).get("extra", []):
            p = os.path.join(w, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if kind == "link":
                os.symlink(to.replace("{W}", w), p)
            elif kind == "dir":
                os.makedirs(p, exist_ok=True)
            else:
                write(p, to)
        own(w)
        return w

    def run(self, h, cwd, args, limit=None):
        env = dict(ENV, HOME=h)
        if self.xdg(h):
            env["XDG_CACHE_HOME"] = os.path.join(h, "cache")
        try:
            r = subprocess.run([self.bin] + args, cwd=cwd, env=env, user=UID, group=UID, extra_groups=[],
                               stdin=subprocess.DEVNULL, capture_output=True, timeout=30)
        except subprocess.TimeoutExpired:
            return None, ""
        return r.returncode, (r.stdout + r.stderr).decode(errors="replace")

    def clean(self, w):
        shutil.rmtree(w)

    def listing(self, fi, pick):
        """The case, for the record."""
        fam = self.fams[fi]
        d = {}
        for i, f in enumerate(fam["files"]):
            where = "project" if not f["lib"] else f"@{utext(fam['libs'][f['lib'] - 1]['ns'])}/{utext(fam['libs'][f['lib'] - 1]['name'])}:{verstr(fam['libs'][f['lib'] - 1]['v'])}"
            d[where + "/" + "/".join(map(utext, f["path"]))] = utext(f["docs"][pick[i] - 1])
        return {"files": d, "packages": ["@%s/%s:%s" % (utext(l["ns"]), utext(l["name"]), verstr(l["v"])) for l in fam["libs"]],
                "main": "/".join(map(utext, fam["main"])), "runtime": fam.get("rt", {})}


def _work(args):
    func, base, fams, binary, cases, opts = args
    w = World(base, fams, binary)
    out = []
    try:
        for case in cases:
            if len(out) < 20:
                for what in func(w, case, opts):
                    out.append((what, case))
    finally:
        shutil.rmtree(w.top)
    return out


def run_all(c, func, fams, binary, cases, opts=None, plain=False):
    """Run func(world, case, opts) -> [deviation] on all cases in parallel."""
    base = tempfile.mkdtemp(prefix="verif.", dir="/tmp")
    try:
        os.chmod(base, 0o755)
        b = os.path.join(base, os.path.basename(binary))
        shutil.copy(binary, b)
        os.chmod(b, 0o755)
        k = 8
        jobs = [(func, base, fams, b, cases[i::k], opts or {}) for i in range(k)]
        with multiprocessing.get_context("fork").Pool(k) as pool:
            res = pool.map(_work, jobs, chunksize=1)
    finally:
        shutil.rmtree(base)
    bad = [x for r in res for x in r]
    w = World.__new__(World)
    w.fams = fams
    for what, case in bad:
        c.violation(what, {"case": case} if plain else {"case": case, "project": w.listing(case[0], case[1])})
    c.cov["traces_validated_against_impl"] += len(cases)
    return len(bad)


# ---- building families ------------------------------------------------------
def ver(s):
    return [cps(x) for x in s.split(".")]


def path(s):
    return [cps(x) for x in s.split("/")]


TOML = '[package]\nname = "%s"\nversion = "%s"\nentrypoint = "%s"\n'


def lib(spec, entry="lib.typ", toml=None, manifest=True, **kw):
    m = re.match(r"@([^/]*)/([^:]*):(.*)$", spec)
    ns, name, v = m.groups()
    if toml is None:
        toml = TOML % (name, v, entry.replace("\\", "\\\\").replace('"', '\\"'))
    return dict(ns=cps(ns), name=cps(name), v=ver(v), entry=cps(entry), manifest=manifest, toml=toml, **kw)


def src(p, docs, l=0):
    return {"lib": l, "path": path(p), "docs": [cps(d) for d in docs]}


def family(files, libs=(), main="main.typ", assets=(), label="", **rt):
    """files: [(path, docs)] or [(path, docs, lib)]; libs get an empty entry
    point unless one is listed."""
    fs = [src(*f) for f in files]
    libs = list(libs)
    have = {(f["lib"], tuple(map(tuple, f["path"]))) for f in fs}
    for i, x in enumerate(libs, 1):
        e = comps(utext(x["entry"]))
        if x["manifest"] and not x.get("empty") and (i, tuple(tuple(cps(y)) for y in e)) not in have:
            fs.append(src("/".join(e), [""], i))
    return {"files": fs, "libs": libs, "main": path(main), "assets": [{"lib": l, "path": path(p)} for l, p in assets],
            "label": label, "rt": rt}


def spec_cfg(fams):
    """The part of the families the specification sees."""
    return {"fams": [{"files": f["files"], "main": f["main"], "assets": f["assets"],
                      "libs": [{k: x[k] for k in ("ns", "name", "v", "entry", "manifest")} for x in f["libs"]]} for f in fams]}
