"""Shared machinery: building the harness from /repo, running TLC, replaying
behaviours into the real code, reporting."""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOROOT_BIN = "/opt/veriftools/go1.25.14/bin"


class CheckError(Exception):
    """The check itself failed (never a violation)."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Check:
    """One run of one property's check."""

    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.thorough = self.tier == "thorough"
        self.rng = random.Random(f"{pid}/{self.seed}")
        self.t0 = time.time()
        base = os.path.join(VERIF, ".build")
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=pid + ".", dir=base)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "samples": [], "configurations": []}
        self.assumptions = []
        self.violations = []      # (what, detail)
        self.known_hit = set()
        self.known = load_known(pid)
        self.bins = {}
        self.n_runs = 0
        self.last_stats = {}

    # ---- bookkeeping -------------------------------------------------------
    def path(self, *p):
        return os.path.join(self.work, *p)

    def violation(self, what, detail=None, key=None):
        for k in self.known:
            if key is not None and k["key"] == key:
                self.known_hit.add(k["key"])
                return
        self.violations.append((what, detail))

    def sample(self, s):
        if len(self.cov["samples"]) < 12:
            self.cov["samples"].append(s)

    def elapsed(self):
        return time.time() - self.t0

    def finish(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(self.elapsed(), 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        if self.violations:
            rp = os.path.join(VERIF, "evidence", f"{self.pid}.replay.json")
            with open(rp, "w") as f:
                json.dump([{"what": w, "detail": d} for w, d in self.violations[:20]], f, indent=1,
                          default=str)
            for w, _ in self.violations[:5]:
                print("  " + w.replace("\n", "\n  ")[:1500])
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        c = self.cov
        print(f"OK property={self.pid} tier={self.tier} states={c['states']} transitions={c['transitions']} "
              f"traces={c['traces_validated_against_impl']} wall={self.elapsed():.1f}s")
        return 0

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # ---- Go ----------------------------------------------------------------
    def goenv(self):
        env = dict(os.environ)
        env.pop("GOROOT", None)
        env.update(HOME=os.environ.get("HOME", "/root") or "/root",
                   PATH=GOROOT_BIN + ":" + os.environ["PATH"], GOTOOLCHAIN="local", GOSUMDB="off",
                   GOPROXY="off", GOWORK="off", GOENV="off", GOPATH="/root/go",
                   GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", CGO_ENABLED="0")
        mod = self.path("typast.mod")
        if not os.path.exists(mod):
            shutil.copy(os.path.join(REPO, "go.mod"), mod)
            shutil.copy(os.path.join(REPO, "go.sum"), self.path("typast.sum"))
            r = subprocess.run(["go", "mod", "edit",
                                "-replace=github.com/mewmew/mathclass=" + os.path.join(VERIF, "harness", "mathclass"), mod],
                               env={**env, "GOFLAGS": ""}, capture_output=True, text=True, cwd=REPO)
            if r.returncode:
                raise CheckError("go mod edit: " + r.stderr)
        env["GOFLAGS"] = "-mod=mod -modfile=" + mod
        return env

    def build_harness(self, pkg, files, race=False, name=None, extra=None):
        """Compile the harness files into a test binary of /repo/<pkg>."""
        name = name or (pkg + "_" + "_".join(files)).replace(".", "_").replace("/", "_")
        if name in self.bins:
            return self.bins[name]
        ov = {"Replace": {}}
        for f in files:
            d, b = os.path.split(f)
            ov["Replace"][os.path.join(REPO, pkg, f"zz_verif_{b}_test.go")] = \
                os.path.join(VERIF, "harness", d, f"zz_verif_{b}_test.go")
        for b, text in (extra or {}).items():
            with open(self.path(f"zz_verif_{b}_test.go"), "w") as f:
                f.write(text)
            ov["Replace"][os.path.join(REPO, pkg, f"zz_verif_{b}_test.go")] = self.path(f"zz_verif_{b}_test.go")
        # The repository's own tests of the package are not part of the harness.
        for f in os.listdir(os.path.join(REPO, pkg)):
            if f.endswith("_test.go"):
                ov["Replace"].setdefault(os.path.join(REPO, pkg, f), "")
        ovp = self.path(name + ".overlay.json")
        with open(ovp, "w") as f:
            json.dump(ov, f)
        out = self.path(name + ".test")
        env = self.goenv()
        if race:
            env["CGO_ENABLED"] = "1"
        cmd = ["go", "test", "-c", "-vet=off", "-overlay", ovp, "-o", out] + (["-race"] if race else []) + ["./" + pkg]
        r = subprocess.run(cmd, env=env, cwd=REPO, capture_output=True, text=True, timeout=600)
        if r.returncode or not os.path.exists(out):
            raise CheckError("building the harness failed:\n" + r.stdout + r.stderr)
        self.bins[name] = out
        return out

    def build_cmd(self, pkg):
        out = self.path(os.path.basename(pkg) + ".bin")
        if os.path.exists(out):
            return out
        r = subprocess.run(["go", "build", "-o", out, "./" + pkg], env=self.goenv(), cwd=REPO,
                           capture_output=True, text=True, timeout=600)
        if r.returncode:
            raise CheckError("building " + pkg + " failed:\n" + r.stderr)
        return out

    def replay(self, binary, op, infile, env=None, timeout=600, workers=None, classify=None, describe=None, detector=False):
        """Replay the cases of infile (one per line) with the given operation.
        Deviations become violations.  Returns the number of cases done."""
        self.n_runs += 1
        t1 = time.time()
        outp = self.path(f"replay{self.n_runs}.out")
        e = self.goenv()
        e.update(env or {})
        e.update(VERIF_OP=op, VERIF_IN=infile, VERIF_OUT=outp)
        if workers:
            e["VERIF_WORKERS"] = str(workers)
        try:
            r = subprocess.run([binary, "-test.run", "^TestVerif$", "-test.timeout", "0"], env=e,
                               capture_output=True, text=True, timeout=timeout, cwd=self.work)
            rc, err = r.returncode, r.stderr + r.stdout
        except subprocess.TimeoutExpired:
            raise CheckError(f"replay of {op} timed out")
        done, reps = None, []
        if os.path.exists(outp):
            for l in open(outp):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if "done" in d:
                    done = d
                else:
                    reps.append(d)
        for d in reps:
            if d["what"].startswith("harness:"):
                raise CheckError(d["what"] + " " + d.get("case", "")[:300])
        for d in reps:
            case = d.get("case") or nth_line(infile, d["i"])
            what = f"{op}: {d['what']}"
            if describe:
                what = describe(d, case) + " " + what
            elif d["kind"] != "deviation":
                what += " on case " + case[:400]
            self.violation(what, {"op": op, "env": env, "case": case, "detail": d.get("detail")},
                           key=classify(d, case) if classify else None)
        if done is None:
            if any(d["kind"] == "hang" for d in reps):
                return 0
            if detector and "WARNING: DATA RACE" in err:
                rep = err[err.index("WARNING: DATA RACE"):]
                self.violation(f"{op}: the race detector reports a data race: " + " / ".join(
                    l.strip() for l in rep.splitlines() if l.strip().endswith(")") or "/repo/" in l)[:600],
                    {"op": op, "env": env, "report": rep[:6000]})
                return 0
            # The process died: find a case that kills it on its own.
            prog = outp + ".progress"
            cand = []
            if os.path.exists(prog):
                cand = [int(x) for x in re.findall(r"-?\d+", open(prog, errors="replace").read()) if int(x) >= 0]
            if len(cand) == 1 and count_lines(infile) == 1:
                self.violation(f"{op}: the process crashed ({first_line(err)}) on case {nth_line(infile, 0)[:400]}",
                               {"op": op, "env": env, "case": nth_line(infile, 0), "stderr": err[-3000:]},
                               key=classify({"what": err[:600], "kind": "crash"}, nth_line(infile, 0)) if classify else None)
                return 0
            found = False
            for i in sorted(set(cand)):
                one = self.path(f"one{self.n_runs}.{i}")
                with open(one, "w") as f:
                    f.write(nth_line(infile, i) + "\n")
                nv = len(self.violations)
                self.replay(binary, op, one, env, timeout, 1, classify, describe)
                found = found or len(self.violations) > nv
            if not found:
                raise CheckError(f"replay of {op} died (exit {rc}), cause not reproduced:\n" + err[-3000:])
            return 0
        if rc != 0:
            raise CheckError(f"replay of {op}: exit {rc}\n" + err[-3000:])
        self.last_stats = done.get("stats") or {}
        self.cov.setdefault("replays", []).append({"operation": op, "cases": done["done"], "seconds": round(time.time() - t1, 1)})
        return done["done"]

    # ---- TLC ---------------------------------------------------------------
    def tlc(self, module, invariants=(), spec="Spec", constants=None, view=None, cfgdata=None, env=None,
            simulate=None, depth=None, workers=8, timeout=600, emit=None, properties=(), constraint=None,
            action_constraint=None, postcondition=None, heap="6g", label=None, limit_emit=None, extra=()):
        """Run TLC on a module of /verif/spec; returns the number of emitted lines.
        Every PrintT'ed JSON string goes to the file `emit`."""
        self.n_runs += 1
        d = self.path(f"tlc{self.n_runs}")
        os.makedirs(d)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, "M.cfg"), "w") as f:
            f.write(f"SPECIFICATION {spec}\n")
            if constants:
                f.write("CONSTANTS\n" + "".join(f"  {k} = {v}\n" for k, v in constants.items()))
            for i in invariants:
                f.write(f"INVARIANT {i}\n")
            for i in properties:
                f.write(f"PROPERTY {i}\n")
            if view:
                f.write(f"VIEW {view}\n")
            if constraint:
                f.write(f"CONSTRAINT {constraint}\n")
            if action_constraint:
                f.write(f"ACTION_CONSTRAINT {action_constraint}\n")
            if postcondition:
                f.write(f"POSTCONDITION {postcondition}\n")
            f.write("CHECK_DEADLOCK FALSE\n")
        e = dict(os.environ)
        e.update(env or {})
        if cfgdata is not None:
            with open(os.path.join(d, "cfg.json"), "w") as f:
                json.dump(cfgdata, f)
            e["VERIF_CFG"] = os.path.join(d, "cfg.json")
        cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss128m", "-Djava.io.tmpdir=" + d, "-cp", JAR, "tlc2.TLC",
               "-workers", str(workers), "-config", "M.cfg", "-metadir", os.path.join(d, "states"),
               "-noTE" if False else "-nowarning"]
        if simulate:
            cmd += ["-simulate", f"num={simulate}", "-depth", str(depth or 100), "-seed", str(self.seed)]
        cmd += list(extra) + [module + ".tla"]
        t = time.time()
        outp = os.path.join(d, "out.txt")
        with open(outp, "w") as o:
            try:
                p = subprocess.run(cmd, cwd=d, env=e, stdout=o, stderr=subprocess.STDOUT, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                raise CheckError(f"TLC on {module} timed out after {timeout} s")
        n = 0
        rest = []
        seen = set()
        with open(outp) as o, open(emit or os.devnull, "a") as em:
            for l in o:
                if l.startswith('"['):
                    try:
                        s = json.loads(l)
                    except ValueError:
                        raise CheckError(f"TLC on {module}: garbled output line {l[:200]}")
                    if simulate:
                        h = hashlib.blake2b(s.encode(), digest_size=12).digest()
                        if h in seen:
                            continue
                        seen.add(h)
                    em.write(s + "\n")
                    n += 1
                else:
                    rest.append(l)
        txt = "".join(rest)
        ok = "No error has been found" in txt if not simulate else \
            ("Error:" not in txt and ("The number of states generated" in txt or "states checked" in txt))
        if rc != 0 or not ok:
            raise CheckError(f"TLC on {module} ({label or spec}) failed (exit {rc}):\n" +
                             "".join(l for l in rest if l.startswith("Error:"))[:1500] + txt[-5000:])
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
        if m:
            gen, dist = int(m.group(1)), int(m.group(2))
        else:
            m = re.search(r"The number of states generated: (\d+)", txt)
            gen = int(m.group(1)) if m else 0
            dist = n if simulate and emit else gen
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        self.cov["configurations"].append({"module": module, "what": label or spec, "invariants": list(invariants) + list(properties),
                                           "generated": gen, "distinct": dist, "emitted": n,
                                           "mode": "simulate" if simulate else "exhaustive",
                                           "seconds": round(time.time() - t, 1)})
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        os.remove(outp)
        self.last_tlc_output = txt
        return n


def nth_line(path, i):
    with open(path) as f:
        for k, l in enumerate(f):
            if k == i:
                return l.rstrip("\n")
    return ""


def count_lines(path):
    with open(path) as f:
        return sum(1 for _ in f)


def first_line(s):
    for l in s.splitlines():
        if l.strip():
            return l.strip()[:200]
    return ""


def load_known(pid):
    """Findings listed as known (and not repaired) for a property."""
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["known"] if k["property"] == pid]


def cps(s):
    return [ord(c) for c in s]


def utext(c):
    return "".join(map(chr, c))
