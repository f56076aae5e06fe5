"""Runs the planus command line tool in scratch directories and records what it does for spec/CliJudge.tla."""
import hashlib, re, shutil, signal
from projlib import *

ANSI = re.compile(r"\x1b\[[0-9;]*m")


def build_cli(c):
    e = cargo_env()
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--manifest-path", "/repo/Cargo.toml", "-p", "planus-cli"], env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise ToolError("cargo build of planus-cli failed:\n" + p.stdout[-4000:])
    c.log("built planus-cli")
    return os.path.join(e["CARGO_TARGET_DIR"], "debug", "planus")


def digest(b):
    return hashlib.sha256(bytes(b)).hexdigest()[:20]


FAKE = {
    "broken": "#!/bin/sh\ncat > /dev/null\nexit 1\n",
    "partial": "#!/bin/sh\n[ \"$1\" = --version ] && exit 0\nhead -c 200\ncat > /dev/null\nexit 1\n",
    "loud": "#!/bin/sh\n[ \"$1\" = --version ] && exit 0\ncat > /dev/null\necho error >&2\nexit 3\n",
    "killed": "#!/bin/sh\n[ \"$1\" = --version ] && exit 0\ncat > /dev/null\nkill -9 $$\n",
    "missing": None,
}


def fakes(c):
    d = os.path.join(c.dir, "fake")
    out = {}
    for k, t in FAKE.items():
        p = os.path.join(d, k)
        os.makedirs(p)
        if t:
            open(os.path.join(p, "rustfmt"), "w").write(t)
            os.chmod(os.path.join(p, "rustfmt"), 0o755)
            for x in ("cat", "head", "sh"):
                os.symlink(shutil.which(x), os.path.join(p, x))
        out[k] = p
    return out


def snapshot(root, base=None):
    base = base or root
    es = []
    for p, ds, fs in os.walk(root):
        for x in ds:
            es.append([os.path.relpath(os.path.join(p, x), base), "dir", ""])
        for x in fs:
            q = os.path.join(p, x)
            es.append([os.path.relpath(q, base), "file", digest(open(q, "rb").read())])
    return sorted(es)


class Session:
    """a scratch directory and the steps taken in it; commands name files below j/,
    or are relative to the directory j/p/q/r, entered first, when the names lead up"""

    def __init__(self, c, exe, fake, k, deep=False):
        self.c, self.exe, self.fake = c, exe, fake
        self.dir = os.path.join(c.dir, "cli", str(k))
        self.root = os.path.join(self.dir, "j")
        self.deep = deep
        self.at = "" if deep else "j/"
        self.base = os.path.join(self.root, "p/q/r") if deep else self.root
        os.makedirs(self.base)
        self.recs, self.jobs = [], []

    def put(self, name, b):
        p = os.path.join(self.base, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "wb").write(bytes(b))

    def mkdir(self, name):
        os.makedirs(os.path.join(self.base, name), exist_ok=True)

    def remove(self, name):
        p = os.path.join(self.base, name)
        os.rmdir(p) if os.path.isdir(p) else os.remove(p)

    def run(self, op, ins, out="", fmt=False, rustfmt="works", extra=(), limit=None, free=False, tag=""):
        pre = snapshot(self.root, self.base)
        files = [(n, list(open(os.path.join(self.base, n), "rb").read())) for n, k, _ in pre if k == "file" and n.endswith(".fbs")]
        args = [op] + [self.at + n for n in ins]
        if out:
            args += ["-o", self.at + out]
        if op == "rust":
            args += ["--format", "true" if fmt else "false"]
        args += extra
        env = dict(os.environ, RUST_BACKTRACE="0", NO_COLOR="1")
        if rustfmt != "works":
            env["PATH"] = self.fake[rustfmt]
        try:
            p = subprocess.run([self.exe] + args, cwd=self.base if self.deep else self.dir, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=120, preexec_fn=limit)
            code, so, se = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            code, so, se = 124, b"", b""
        se = ANSI.sub("", se.decode("utf-8", "replace"))
        errs = len(re.findall(r"^(?:error|Error)\b", se, re.M))
        fn = [n for n, _ in files]
        cmd = {"op": op, "in": list(ins), "out": out, "fmt": fmt, "rustfmt": "works" if rustfmt == "works" else "fails"}
        rec = {"cmd": cmd, "files": [{"name": B(n), "b": b} for n, b in files], "main": [fn.index(n) + 1 if n in fn else 0 for n in ins],
               "parent": os.path.dirname(out), "pre": pre, "post": snapshot(self.root, self.base), "full": "", "code": code, "errs": errs, "out": "", "fullout": "",
               "stderr": se[:400], "free": free, "tag": tag}
        # what the library makes of the same files
        job = None
        if code == 0 and op in ("rust", "dot"):
            job = {"op": "translate", "files": files, "main": list(ins), "rust": op == "rust", "dot": op == "dot", "fmt": fmt, "deep": self.deep}
        elif op == "format":
            rec["out"] = digest(so.rstrip(b"\n")) if so else ""
            if code == 0:
                job = {"op": "format", "files": files, "main": list(ins), "deep": self.deep}
        self.recs.append(rec)
        self.jobs.append(job)
        if free:       # only whether it answers is judged
            rec["files"] = []
        return rec

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def judge_cli(c, sessions, name="cli"):
    recs = [r for s in sessions for r in s.recs]
    jobs = [j for s in sessions for j in s.jobs]
    todo, keys = [], {}
    for k, j in enumerate(jobs):
        if j:
            keys.setdefault(json.dumps(j, sort_keys=True), []).append(k)
    for q, x in zip(keys.values(), run_sch(c, [json.loads(k) for k in keys], name + "_lib")):
        for k in q:
            if jobs[k]["op"] == "format":
                recs[k]["fullout"] = digest(bytes(x.get("text", [])).rstrip(b"\n"))
            else:
                t = x.get(recs[k]["cmd"]["op"])
                recs[k]["full"] = digest(t.encode()) if isinstance(t, str) else "none"
    c.validate("CliJudge", recs, name=name, describe=lambda r: "%s %s exits %d: %r %s" % (
        r["tag"], " ".join([r["cmd"]["op"]] + r["cmd"]["in"] + ([r["cmd"]["out"]] if r["cmd"]["out"] else [])), r["code"],
        [(bytes(f["name"]).decode(), bytes(f["b"]).decode("utf-8", "replace")[:200]) for f in r["files"]], r["stderr"][:200]))
    return recs
