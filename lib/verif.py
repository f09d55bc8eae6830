"""Orchestration of the checks: builds the machinery against /repo's current tree, runs it, reports."""
import atexit, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
MODULE = "github.com/hired/gevulot"


def go_env():
    env = dict(os.environ)
    env.setdefault("HOME", "/root")
    try:
        out = subprocess.run(["bash", "-c", "set -a; . /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True, env=env).stdout
        for kv in out.split(b"\0"):
            k, _, v = kv.partition(b"=")
            if k in (b"PATH", b"GOFLAGS", b"GOPROXY", b"GOTOOLCHAIN", b"GOWORK", b"GOCACHE", b"GOPATH", b"GOMODCACHE", b"GOROOT", b"GONOSUMDB", b"GOSUMDB", b"GONOSUMCHECK"):
                env[k.decode()] = v.decode()
    except OSError:
        pass
    env.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GOSUMDB="off", CGO_ENABLED="0")
    return env


ENV = go_env()


class Failed(Exception):
    pass


def sh(cmd, cwd, timeout=800, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout, errors="replace")
    if p.returncode != 0:
        raise Failed("%s (in %s) failed with %d:\n%s\n%s" % (" ".join(cmd), cwd, p.returncode, p.stdout[-3000:], p.stderr[-3000:]))
    return p.stdout


class Work:
    """A scratch directory with a copy of the repository and the machinery built from it."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vcheck-")
        atexit.register(self.remove)
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, lambda *_: sys.exit(3))
        self.src = os.path.join(self.dir, "src")
        self.copy_repo()

    def remove(self):
        if self.dir.startswith(tempfile.gettempdir() + "/vcheck-"):
            shutil.rmtree(self.dir, ignore_errors=True)

    def copy_repo(self):
        def ignore(d, names):
            return [n for n in names if n in (".git", "vendor", "node_modules")]
        shutil.copytree(REPO, self.src, symlinks=True, ignore=ignore)

    def goos_env(self):
        return ENV

    # ---- instrumented build

    def gen(self):
        """Instrument the repository into a module of its own; returns its directory."""
        gen = os.path.join(self.dir, "gen")
        if os.path.isdir(gen):
            return gen
        mc = os.path.join(VERIF, "mc")
        instr = os.path.join(self.dir, "instr")
        sh(["go", "build", "-o", instr, "./cmd/instr"], mc)
        os.makedirs(gen)
        sh([instr, "-src", self.src, "-out", gen, MODULE + "/...=mem=.",
            "golang.org/x/sync/errgroup=nomem=_xsync/errgroup", "golang.org/x/sync/semaphore=nomem=_xsync/semaphore",
            "golang.org/x/sync/singleflight=nomem=_xsync/singleflight", "github.com/BurntSushi/toml=files=_xtoml"], self.src)
        mod = open(os.path.join(self.src, "go.mod")).read()
        mod = re.sub(r"(?m)^go 1\..*$", "go 1.21", mod)
        mod = re.sub(r"(?m)^toolchain .*$", "", mod)
        mod += "\nrequire verif.local/mc v0.0.0\nreplace verif.local/mc => %s\n" % mc
        for sub, path in (("_xsync", "golang.org/x/sync"), ("_xtoml", "github.com/BurntSushi/toml")):
            d = os.path.join(gen, sub)
            if os.path.isdir(d):
                open(os.path.join(d, "go.mod"), "w").write("module %s\n\ngo 1.21\n" % path)
                mod += "replace %s => ./%s\n" % (path, sub)
        open(os.path.join(gen, "go.mod"), "w").write(mod)
        shutil.copy(os.path.join(self.src, "go.sum"), os.path.join(gen, "go.sum"))
        return gen

    def build_mc(self, harness):
        """Build an exploration harness; returns the binary."""
        gen = self.gen()
        dst = os.path.join(gen, "zzmc", harness)
        if not os.path.isdir(dst):
            shutil.copytree(os.path.join(VERIF, "harness", harness), dst)
            br = os.path.join(dst, "bridge")
            if os.path.isdir(br):  # files that go into packages of the program
                for root, _, files in os.walk(br):
                    for f in files:
                        rel = os.path.relpath(os.path.join(root, f), br)
                        shutil.copy(os.path.join(root, f), os.path.join(gen, os.path.splitext(rel)[0] + ".go"))
                shutil.rmtree(br)
        out = os.path.join(self.dir, "bin-" + harness)
        sh(["go", "build", "-o", out, "./zzmc/" + harness], gen)
        return out

    def build_native(self, harness):
        """Build a sequential harness against the unmodified packages; returns the binary."""
        dst = os.path.join(self.src, "zzverif", harness)
        shutil.copytree(os.path.join(VERIF, "native", harness), dst)
        if not os.path.isdir(os.path.join(self.src, "zzverif", "x")):
            shutil.copytree(os.path.join(VERIF, "native", "x"), os.path.join(self.src, "zzverif", "x"))
        br = os.path.join(dst, "bridge")
        if os.path.isdir(br):
            for root, _, files in os.walk(br):
                for f in files:
                    rel = os.path.relpath(os.path.join(root, f), br)
                    shutil.copy(os.path.join(root, f), os.path.join(self.src, os.path.splitext(rel)[0] + ".go"))
            shutil.rmtree(br)
        if harness == "prog":
            self.program = os.path.join(self.dir, "gevulot-prog")
            sh(["go", "build", "-o", self.program, "."], self.src)
        out = os.path.join(self.dir, "native-" + harness)
        sh(["go", "build", "-o", out, "./zzverif/" + harness], self.src)
        return out


# ---- running


def run_scenarios(w, binary, prop, tier, budget, extra=(), names=None):
    """Run the scenarios of a property in parallel; returns their reports."""
    lst = sh([binary, "-list", prop, "-tier", tier], w.dir).split("\n")
    scs = [(l.split()[0], int(l.split()[1])) for l in lst if l.strip()]
    if names is not None:
        scs = [s for s in scs if s[0] in names]
    if not scs:
        raise Failed("no scenario for " + prop)
    scs.sort(key=lambda s: -s[1])
    jobs = max(2, os.cpu_count() or 2)
    start = time.time()
    stop = threading.Event()
    procs = set()
    # every scenario gets its share of the remaining time
    per = budget if len(scs) <= jobs else budget * jobs / len(scs)

    def one(sc):
        if stop.is_set():
            return None
        out = os.path.join(w.dir, "rep-%s-%s.json" % (prop, sc[0]))
        left = budget - (time.time() - start)
        secs = max(3.0, min(per if tier == "quick" else max(per, left * 0.6), left))
        cmd = [binary, "-run", sc[0], "-tier", tier, "-secs", "%.1f" % secs, "-out", out] + list(extra)
        env = dict(ENV, GOMAXPROCS="2", GOGC="200", MC_SCRATCH=w.dir)
        p = subprocess.Popen(cmd, cwd=w.dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        procs.add(p)
        try:
            o, _ = p.communicate(timeout=1.5 * secs + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            o, _ = p.communicate()
            o += "\nkilled: over time"
        procs.discard(p)
        rep = None
        if os.path.exists(out):
            try:
                rep = json.load(open(out))
            except ValueError:
                rep = None
        if rep is None:
            if stop.is_set():
                return None
            rep = {"scenario": sc[0], "what": "", "stats": {}, "error": "no report (exit %s): %s" % (p.returncode, o[-2000:])}
        if rep.get("violation"):
            if not stop.is_set():
                stop.set()
                for q in list(procs):
                    try:
                        q.kill()
                    except OSError:
                        pass
        return rep

    with ThreadPoolExecutor(jobs) as ex:
        return [r for r in ex.map(one, scs) if r]


def run_spaces(w, binary, prop, tier, budget):
    """Explore the spaces of a property one after the other (each uses all processors); returns their reports."""
    names = sh([binary, "-list", prop, "-tier", tier], w.dir).split()[0::2]
    if not names:
        raise Failed("no space for " + prop)
    start = time.time()
    res = []
    for i, n in enumerate(names):
        out = os.path.join(w.dir, "rep-%s-%s.json" % (prop, n))
        secs = max(5.0, budget - (time.time() - start) - 3 * (len(names) - 1 - i))
        cmd = [binary, "-run", n, "-prop", prop, "-tier", tier, "-secs", "%.1f" % secs, "-out", out]
        env = dict(ENV, MC_SCRATCH=w.dir, GEVULOT_PROG=getattr(w, "program", ""))
        try:
            p = subprocess.run(cmd, cwd=w.dir, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=secs + 100)
            o = p.stdout
        except subprocess.TimeoutExpired:
            o = "over time"
        try:
            r = json.load(open(out))
        except (OSError, ValueError):
            r = {"scenario": n, "what": "", "stats": {}, "error": "no report: " + o[-2000:]}
        res.append(r)
        if r.get("violation"):
            break
    return res


def known_findings():
    """Known findings: lines 'finding: property=ID match=REGEX what' of known_findings.txt."""
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m:
                r.append((m.group(1), m.group(2), m.group(3)))
    return r


class Report:
    def __init__(self, prop, tier, level):
        self.prop, self.tier, self.level = prop, tier, level
        self.start = time.time()
        self.cov = {}
        self.assumptions = []
        self.violations = []  # (message, replay dict)
        self.errors = []
        self.found = []  # known findings observed

    def finish(self):
        if self.errors:
            # part of the space could not be explored; the verdict is about the rest
            self.cov["exhaustive"] = False
            self.cov["undecided"] = [e[:500] for e in self.errors]
        ev = {
            "property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": self.level,
            "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.start, 2),
            "violations": len(self.violations),
        }
        d = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.found:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if self.violations:
            rd = os.path.join(d, "replay")
            os.makedirs(rd, exist_ok=True)
            msg, rep = self.violations[0]
            path = os.path.join(rd, self.prop + ".json")
            with open(path, "w") as f:
                json.dump(rep, f, indent=1)
            print("violated: " + msg)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        for e in self.errors:
            print("ERROR: " + e, file=sys.stderr)
        if not self.cov.get("traces_validated_against_impl"):
            print("nothing could be explored", file=sys.stderr)
            return 2
        print("held: %s (%s) %s" % (self.prop, self.tier, json.dumps({k: v for k, v in self.cov.items() if isinstance(v, (int, bool))})))
        return 0


def add_mc(rep, results):
    """Merge exploration reports into the evidence."""
    c = rep.cov
    for k in ("states", "transitions", "traces_validated_against_impl"):
        c.setdefault(k, 0)
    c.setdefault("samples", [])
    c.setdefault("scenarios", [])
    c.setdefault("exhaustive", True)
    for r in results:
        s = r.get("stats") or {}
        c["states"] += max(s.get("states", 0), s.get("complete_executions", 0))  # every choice vector ends in a state of its own
        c["transitions"] += s.get("transitions", 0)
        c["traces_validated_against_impl"] += s.get("executions", 0)
        if "complete_executions" in s:
            c["executions_complete"] = c.get("executions_complete", 0) + s["complete_executions"]
        if not s.get("exhaustive") and not r.get("violation"):
            c["exhaustive"] = False
        c["scenarios"].append({
            "name": r["scenario"], "what": r.get("what", ""), "mode": s.get("mode"), "bound_completed": s.get("bound_completed"),
            "bound_did_not_cut": s.get("bound_did_not_cut"), "executions": s.get("executions"), "states": s.get("states"),
            "distinct_outcomes": s.get("distinct_outcomes"), "max_steps": s.get("max_steps"), "max_threads": s.get("max_threads"),
            "exhaustive": s.get("exhaustive"), "wall_s": s.get("wall_s"),
        })
        for o in (s.get("sample_outcomes") or [])[:2]:
            if len(c["samples"]) < 40:
                c["samples"].append({"scenario": r["scenario"], "outcome": o})
        if r.get("violation"):
            v = r["violation"]
            rep.violations.append(("%s: %s: %s" % (r["scenario"], v["kind"], v["message"]), r))
        elif r.get("error"):
            rep.errors.append("%s: %s" % (r["scenario"], r["error"]))
    if not c["samples"]:
        c["samples"].append({"scenario": results[0]["scenario"], "outcome": "(no observation logged)"})
