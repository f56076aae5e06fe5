"""Schema projects: running them through the front end of planus (harness/sch) and
turning the observations into records for spec/SchemaJudge.tla."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import *


def B(x):
    return list(x.encode() if isinstance(x, str) else bytes(x))


class Project:
    """files: [(name, text)], main: file numbers from 0"""

    def __init__(self, files, main=(0,), tag=""):
        self.files = [(n, B(t)) for n, t in files]
        self.main = list(main)
        self.tag = tag
        self.opt = None
        self.deep = any(n.startswith("../") for n, _ in files)  # run three directories further down

    def with_options(self, docs, meta):
        """the same project, translated with --ignore-docstring-errors and --ignore-unknown-metadata"""
        p = Project([], self.main, self.tag)
        p.files, p.deep, p.opt = self.files, self.deep, {"docs": docs, "meta": meta}
        return p

    def show(self):
        return "\n".join(["options %r" % self.opt] * bool(self.opt) + ["--- %s\n%s" % (n, bytes(b).decode("utf-8", "replace")) for n, b in self.files])


def one(text, tag=""):
    return Project([("a.fbs", text)], [0], tag)


def run_sch(c, jobs, name="sch", timeout=300, per=400):
    """Runs the jobs in parallel; a job that ends or hangs the process yields {"panic": ...}."""
    exe = os.path.join(c.cargo("sch"), "sch") if not hasattr(c, "_sch") else c._sch
    c._sch = exe
    res = [None] * len(jobs)

    def part(k, lo, hi):
        while lo < hi:
            a, b = (os.path.join(c.dir, "%s_%d.%s" % (name, k, x)) for x in ("in", "out"))
            with open(a, "w") as f:
                for j in jobs[lo:hi]:
                    f.write(json.dumps(j) + "\n")
            why = "the process ended"
            try:
                p = subprocess.run([exe, a, b, os.path.join(c.dir, "%s_%d.d" % (name, k))], timeout=timeout,
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                why = "the process ended with code %d" % p.returncode
            except subprocess.TimeoutExpired:
                why = "no answer within %d s" % timeout
            lines = open(b).read().split("\n")[:-1] if os.path.exists(b) else []
            for x in lines:
                res[lo] = json.loads(x)
                lo += 1
            os.remove(a)
            if lo < hi:
                res[lo] = {"ok": False, "panic": why, "errors": 0, "at": []}
                lo += 1
            elif p.returncode:
                raise ToolError("sch: " + why)

    with ThreadPoolExecutor(CPUS) as ex:
        list(ex.map(lambda k: part(k, k * per, min(len(jobs), (k + 1) * per)), range((len(jobs) + per - 1) // per)))
    return res


def lg(n):
    return n.bit_length() - 1 if n > 0 and n & (n - 1) == 0 else -1


def names(t):
    return [t[0], [B(x) for x in t[1]]] if t[0] in ("struct", "enum", "table", "union") else [t[0], names(t[1])] if t[0] == "vec" else t


def obs(pj, r):
    o = {"ok": r["ok"], "panic": r["panic"], "errors": r["errors"], "d": [], "ns": []}
    fn = [n for n, _ in pj.files]
    o["at"] = [[fn.index(f) + 1 if f in fn else 0, l, k] for f, l, k in ([os.path.normpath(f), l, k] for f, l, k in r["at"])]
    d = r.get("dump")
    if d:
        o["ns"] = [{"path": [B(x) for x in n["path"]], "doc": n["doc"], "decls": [[B(x), [B(y) for y in p]] for x, p in n["decls"]],
                    "children": [[B(x), [B(y) for y in p]] for x, p in n["children"]]} for n in d["ns"]]
        for x in d["d"]:
            x = dict(x, path=[B(y) for y in x["path"]], ns=[B(y) for y in x["ns"]])
            for f in x.get("f", []) + x.get("v", []):
                f["n"] = B(f["n"])
                if "t" in f:
                    f["t"] = names(f["t"])
                if "align" in f:
                    f["align"] = lg(f["align"])
            if "align" in x:
                x["align"] = lg(x["align"])
            o["d"].append(x)
    return o


def record(pj, r):
    return dict({"files": [{"name": B(n), "b": b} for n, b in pj.files], "main": [m + 1 for m in pj.main], "obs": obs(pj, r)}, **({"opt": pj.opt} if pj.opt else {}))


def job(pj, **kw):
    return dict({"op": "translate", "files": [[n, b] for n, b in pj.files], "main": [pj.files[m][0] for m in pj.main], "dump": True, "deep": pj.deep}, **(pj.opt or {}), **kw)


def judge(c, projects, name="schema", module="SchemaJudge", timeout=800):
    res = run_sch(c, [job(p) for p in projects], name)
    recs = [record(p, r) for p, r in zip(projects, res)]
    c.log("%d projects, %d accepted" % (len(recs), sum(r["ok"] for r in res)))
    c.add(projects=len(recs), accepted=sum(r["ok"] for r in res))
    shown = {id(r): p for r, p in zip(recs, projects)}
    if projects:
        c.sample({"schema": projects[0].show()[:600], "ok": res[0]["ok"]})
    c.validate(module, recs, name=name, timeout=timeout, describe=lambda r: repr(shown[id(r)].show()[:400]))
    return res
