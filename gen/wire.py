"""Builds the wire harness for a set of schemas and runs jobs on it."""
import json, os, random, subprocess
from schema import *


def install(dir, schemas, values=False):
    """write schemas and glue into a directory for harness/rt/build.rs"""
    os.makedirs(dir, exist_ok=True)
    glue = ""
    for s in schemas:
        put(os.path.join(dir, s.name + ".fbs"), s.fbs())
        glue += s.glue('include!(concat!(env!("OUT_DIR"), "/%s.rs"));' % s.name, values)
    glue += "fn read(s:u64,j:u64,b:&[u8],it:bool,d:u32,k:usize)->Value { match s { %s, _=>panic!() } }\n" % ",".join(
        "%d=>%s::read(j,b,it,d,k)" % (i + 1, s.name) for i, s in enumerate(schemas))
    glue += "fn write(s:u64,j:u64,v:&Value,how:&str,b:&mut planus::Builder,id:Option<[u8;4]>)->Vec<u8> { match s { %s, _=>panic!() } }\n" % ",".join(
        "%d=>%s::write(j,v,how,b,id)" % (i + 1, s.name) for i, s in enumerate(schemas))
    glue += "fn owned_default(s:u64,j:u64)->Value { match s { %s, _=>panic!() } }\n" % ",".join(
        "%d=>%s::owned_default(j)" % (i + 1, s.name) for i, s in enumerate(schemas))
    if values:
        glue += "fn values(s:u64,j:u64,q:&Value)->Value { match s { %s, _=>panic!() } }\n" % ",".join(
            "%d=>%s::values(j,q)" % (i + 1, s.name) for i, s in enumerate(schemas))
    put(os.path.join(dir, "glue.rs"), glue.replace("use rtlib::*;", "use rtlib::*; use rtlib::{prev, prevu, probe};"))
    for f in os.listdir(dir):
        if f != "glue.rs" and f[:-4] not in [s.name for s in schemas]:
            os.remove(os.path.join(dir, f))


def put(p, t):
    """keeps the file's time stamp when nothing changes, so cargo does not rebuild"""
    if not (os.path.exists(p) and open(p).read() == t):
        with open(p, "w") as f:
            f.write(t)


def tlaschemas(c, schemas, name="schemas.json"):
    p = os.path.join(c.dir, name)
    with open(p, "w") as f:
        json.dump([s.tla() for s in schemas], f)
    return p


class Crash(Exception):
    pass


def run_jobs(c, binary, jobs, name):
    """returns one result per job; a job that kills the process yields None"""
    res, start = [], 0
    while start < len(jobs):
        ip, op, pp = [os.path.join(c.dir, name + x) for x in (".jobs", ".out", ".prog")]
        with open(ip, "w") as f:
            for j in jobs[start:]:
                f.write(json.dumps(j, separators=(",", ":")) + "\n")
        try:
            p = subprocess.run([binary, ip, op, pp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        except subprocess.TimeoutExpired:     # nothing after this job is run
            n = int(open(pp).read().strip() or 0)
            res += run_jobs(c, binary, jobs[start:start + n], name + "r") if n else []
            return res + [{"crash": 124}] + [{"crash": 0}] * (len(jobs) - len(res) - 1)
        if p.returncode == 0:
            with open(op) as f:
                res += [json.loads(l) for l in f]
            break
        n = int(open(pp).read().strip() or 0)
        # rerun the part before the crash, then skip the crashing job
        res += run_jobs(c, binary, jobs[start:start + n], name + "r") if n else []
        res.append({"crash": p.returncode})
        start += n + 1
        if sum(1 for r in res if "crash" in r) > 5:
            res += [{"crash": 0}] * (len(jobs) - len(res))
            break
    assert len(res) == len(jobs), (len(res), len(jobs))
    return res
