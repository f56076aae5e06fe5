"""Shared machinery of the checks: building harness crates from /repo's working
tree, running TLC, reporting verdicts and writing evidence.

Exit codes of a check: 0 held, 1 violated (with a VIOLATION line), 2 no answer.
"""
import concurrent.futures, json, os, re, resource, shutil, subprocess, sys, threading, time, hashlib, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
GEN = os.path.join(VERIF, "gen")
HARNESS = os.path.join(VERIF, "harness")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = min(8, os.cpu_count() or 8)
sys.path.insert(0, GEN)

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
QUICK = TIER == "quick"


class ToolError(Exception):
    pass


def cargo_env():
    env = dict(os.environ)
    env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
    env.update(
        CARGO_HOME="/root/.cargo",
        RUSTUP_HOME="/root/.rustup",
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
        PLANUS_SKIP_FLATC="1",
        CARGO_TARGET_DIR=os.path.join(BUILD, "target"),
    )
    for k in ("PLANUS_REQUIRE_FLATC", "PLANUS_REGENERATE", "RUSTFLAGS"):
        env.pop(k, None)
    env["VERIF_BUILD"] = BUILD
    return env


class Check:
    """One run of one property's check."""

    def __init__(self, prop, level, replay_ext="json"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, "run", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.replays = os.path.join(BUILD, "replay")
        os.makedirs(self.replays, exist_ok=True)
        for f in os.listdir(self.replays):
            if f.startswith(prop + "-"):
                os.remove(os.path.join(self.replays, f))
        self.lock, self._tlc_n = threading.RLock(), 0
        self.violations = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.known = load_known(prop)
        self.known_hit = {}

    # ---- bookkeeping -------------------------------------------------
    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    def add(self, **kw):
        with self.lock:
            for k, v in kw.items():
                self.cov[k] = self.cov.get(k, 0) + v

    def each(self, fs, at_once=3):
        """run independent parts side by side; the first failure of the machinery is raised"""
        with concurrent.futures.ThreadPoolExecutor(at_once) as ex:
            for f in [ex.submit(g) for g in fs]:
                f.result()

    def violation(self, what, replay):
        """what: one-line description; replay: JSON-able or text."""
        key = what
        for k in self.known:
            if all(m in what for m in k["match"].split(" ... ")):
                self.known_hit.setdefault(k["match"], k)
                return
        with self.lock:
            n = len(self.violations) + 1
            self.violations.append(what)
        if n > 20:
            return
        path = os.path.join(self.replays, "%s-%d.json" % (self.prop, n))
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "replay": replay, "seed": SEED, "tier": TIER}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        print("   " + what[:600], flush=True)

    def finish(self, exhaustive=None):
        for k in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        ev = {
            "property": self.prop,
            "tier": TIER,
            "seed": SEED,
            "level": self.level,
            "coverage": self.cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        if exhaustive is not None:
            self.cov["exhaustive"] = exhaustive
        if not self.cov["samples"]:
            self.cov["samples"] = ["(no sample recorded)"]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        self.log("done: %d violation(s), %s" % (len(self.violations), {k: v for k, v in self.cov.items() if isinstance(v, int)}))
        return 1 if self.violations else 0

    # ---- cargo -------------------------------------------------------
    def cargo(self, pkg, bins=None, env=None, features=None, no_default=False, release=False, quiet=True):
        """Build harness package; returns {bin: path}. Raises ToolError on failure."""
        cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(HARNESS, pkg, "Cargo.toml")]
        if bins:
            for b in bins:
                cmd += ["--bin", b]
        if features:
            cmd += ["--features", features]
        if no_default:
            cmd += ["--no-default-features"]
        if release:
            cmd += ["--release"]
        e = cargo_env()
        if env:
            e.update(env)
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            raise ToolError("cargo build of harness %s failed:\n%s" % (pkg, ("\n".join(re.findall(r"^error[^\n]*\n(?:[^\n]+\n){0,8}", p.stdout, re.M))[:6000] or p.stdout[-6000:])))
        d = os.path.join(e["CARGO_TARGET_DIR"], "release" if release else "debug")
        self.log("built harness", pkg, bins or "")
        return d

    def run(self, cmd, timeout=600, env=None, input=None, cwd=None, check=True):
        e = dict(os.environ)
        if env:
            e.update(env)
        try:
            p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                               errors="replace", timeout=timeout, input=input, cwd=cwd or self.dir)
        except subprocess.TimeoutExpired:
            raise ToolError("timeout running %s" % cmd)
        if check and p.returncode != 0:
            raise ToolError("harness %s exited with %d:\n%s\n%s" % (cmd, p.returncode, p.stdout[-3000:], p.stderr[-3000:]))
        return p

    def under_test(self, cmd, what, replay, timeout=300, **kw):
        """Run a harness that executes the code under test: when it is killed, hangs or takes
        more memory than there is, that is the code's doing and ends the check."""
        def limit():
            resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout, preexec_fn=limit, **kw)
            if p.returncode == 0:
                return p
            why = "ends the process with code %d: %s" % (p.returncode, p.stderr[-300:])
        except subprocess.TimeoutExpired:
            why = "gives no answer within %d s" % timeout
        self.violation("%s %s" % (what, why), replay() if callable(replay) else replay)
        raise Ended()

    # ---- TLC ---------------------------------------------------------
    def tlc(self, module, env=None, consts=None, init="Init", next_="Next", spec=None, invariants=(), properties=(),
            constraints=(), workers=CPUS, timeout=800, deadlock=False, simulate=None, extra=(), heap="6g",
            postcondition=None, view=None, allow_error=False):
        """Run TLC on spec/<module>.tla with a generated cfg. Returns a TlcResult."""
        with self.lock:
            n = self._tlc_n = self._tlc_n + 1
        cfg = os.path.join(self.dir, "%s_%d.cfg" % (module, n))
        with open(cfg, "w") as f:
            if spec:
                f.write("SPECIFICATION %s\n" % spec)
            else:
                f.write("INIT %s\nNEXT %s\n" % (init, next_))
            for k, v in (consts or {}).items():
                f.write("CONSTANT %s = %s\n" % (k, v))
            for i in invariants:
                f.write("INVARIANT %s\n" % i)
            for i in properties:
                f.write("PROPERTY %s\n" % i)
            for i in constraints:
                f.write("CONSTRAINT %s\n" % i)
            if postcondition:
                f.write("POSTCONDITION %s\n" % postcondition)
            if view:
                f.write("VIEW %s\n" % view)
            f.write("CHECK_DEADLOCK %s\n" % ("TRUE" if deadlock else "FALSE"))
        meta = os.path.join(self.dir, "meta_%d" % n)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-cp", TLAJARS, "tlc2.TLC",
               "-config", cfg, "-metadir", meta, "-workers", str(workers), "-nowarning", "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", simulate]
        cmd += list(extra)
        cmd.append(os.path.join(SPEC, module + ".tla"))
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        out = os.path.join(self.dir, "%s_%d.out" % (module, n))
        with open(out, "w") as f:
            try:
                p = subprocess.run(cmd, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, cwd=SPEC)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                raise ToolError("TLC timeout on %s" % module)
        txt = open(out, errors="replace").read()
        shutil.rmtree(meta, ignore_errors=True)
        r = TlcResult(rc, txt, out)
        self.log("TLC %s: rc=%d states=%d distinct=%d %.1fs" % (module, rc, r.generated, r.distinct, time.time() - t))
        self.add(states=r.distinct, transitions=r.generated)
        if rc != 0 and not allow_error:
            raise ToolError("TLC failed on %s (rc %d):\n%s" % (module, rc, txt[-5000:]))
        return r

    def validate(self, module, records, env=None, consts=None, timeout=800, heap="6g", name="trace", chunk=None,
                 describe=None, inv="Accepted"):
        """Check every record of a trace file against spec module `module`, which
        extends Batch and defines Check(rec). Reports each rejected record."""
        path = os.path.join(self.dir, "%s_%s.ndjson" % (module, name))
        with open(path, "w") as f:
            for r in records:
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        n = len(records)
        if n == 0:
            raise ToolError("no records to validate for " + module)
        e = {"TRACE": path}
        e.update(env or {})
        bad = []
        res = self.tlc(module, env=e, consts=consts, invariants=(inv,), timeout=timeout, heap=heap, allow_error=True)
        bad = [(i, why) for i, why in res.rejects]
        if res.rc != 0:
            # An evaluation error: the observation of some record has a shape
            # the specification has no meaning for. Find which one.
            m = re.search(r"^i = (\d+)", res.text, re.M)
            if m is None or not res.evalerror:
                raise ToolError("TLC failed on %s:\n%s" % (module, res.text[-5000:]))
            if self.violations == [] or True:
                bad.append((int(m.group(1)), "no behaviour of the specification has this shape: " + res.evalerror))
            self.add(states=0)
        else:
            if res.distinct != n + 1:
                raise ToolError("TLC visited %d of %d records of %s" % (res.distinct - 1, n, module))
        seen = set()
        for i, why in bad:
            if i in seen or i < 1 or i > n:
                continue
            seen.add(i)
            d = describe(records[i - 1]) if describe else ""
            self.violation("%s %s: %s" % (module, d, why), records[i - 1])
        self.add(traces_validated_against_impl=n)
        return len(seen)


class Ended(Exception):
    """the check cannot go on after a violation"""


class TlcResult:
    def __init__(self, rc, text, path):
        self.rc, self.text, self.path = rc, text, path
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states", text)
        if m:
            self.generated, self.distinct = int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
        else:
            self.generated = self.distinct = 0
        self.rejects = []
        for m in re.finditer(r'^"?REJECT (\d+) (.*)$', text, re.M):
            self.rejects.append((int(m.group(1)), m.group(2)[:1500].replace('\\"', '"')))
        m = re.search(r"Error: (?:The following errors were detected|Evaluating|TLC threw|The invariant|In evaluation|Attempted)(.*)", text, re.S)
        self.evalerror = " ".join(m.group(0).split())[:600] if m else None
        self.violated = re.findall(r"(?:Invariant|property) (\w+) is violated", text)


def load_known(prop):
    """known_findings.txt: lines 'known: property=<id> match=<text>| <what fails>'
    and 'fixed: property=<id> <commit> <what failed>' (which suppress nothing)."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\w+) match=(.*?)\| (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append({"match": m.group(2), "what": m.group(3)})
    return res


def main(prop, level, fn):
    c = None
    try:
        c = Check(prop, level)
        try:
            rc = fn(c)
        except Ended:
            rc = None
        if rc is None:
            rc = c.finish()
        sys.exit(rc)
    except ToolError as e:
        print("TOOL-ERROR property=%s: %s" % (prop, e), flush=True)
        if c is not None and c.violations:
            c.finish()
            sys.exit(1)
        sys.exit(2)
