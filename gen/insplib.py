"""Buffers and sessions for the inspection library and the inspector."""
import json, os, random
from vlib import *
import wire
from schema import *
from foreign import Foreign
from wirelib import tables


def families(r, n):
    ss = [full_schema("full"), small_schema("small")]
    for k in range(n):
        b = random_schema(r, "v%da" % k, ids=0.6, n_table=4, big=k % 4 == 3)
        b.family = "v%d" % k
        c1 = evolve(r, b, "v%db" % k)
        ss += [b, c1, evolve(r, c1, "v%dc" % k)]
    return ss


def corpus(c, r, n, limit):
    """(schemas, their file, [(schema to inspect with, schema written with, table, bytes)])"""
    ss = families(r, 5 if QUICK else 12)
    sp = wire.tlaschemas(c, ss)
    out = []
    while len(out) < n:
        w = r.randrange(len(ss))
        j = ss[w].root if r.random() < 0.6 else r.choice(tables(ss[w]))
        q = len(out)
        fam = [k for k in range(len(ss)) if getattr(ss[k], "family", ss[k].name) == getattr(ss[w], "family", ss[w].name) and
               j <= len(ss[k].decls) and ss[k].decls[j - 1]["k"] == "table"]
        k = w if r.random() < 0.4 else r.choice(fam)
        # fields of nobody's schema must not sit where the inspected schema has fields
        b = Foreign(r, ss[w], extra=q % 2 == 0 and k <= w, junk=q % 3 > 0, aligned=q % 5 > 0, vt_before=True,
                    none=0.15 if q % 4 == 0 else 0).write(j, rand_value(r, ss[w], ["ref", j], r.choice([1, 2, 2, 3])))
        if len(b) <= limit:
            out.append((k + 1, w + 1, j, b))
    return ss, sp, out


def run_insp(c, ss, jobs, name):
    d = os.environ.get("VERIF_INSP") or c.cargo("insp")
    jp, op, sd = [os.path.join(c.dir, name + x) for x in (".jobs", ".out", ".d")]
    os.makedirs(sd, exist_ok=True)
    with open(jp, "w") as f:
        f.write(json.dumps({"schemas": [s.fbs() for s in ss]}) + "\n")
        for j in jobs:
            f.write(json.dumps(j, separators=(",", ":")) + "\n")
    def near():
        n = sum(1 for _ in open(op)) if os.path.exists(op) else 0
        return {"answered": n, "jobs": jobs[max(0, n - 2):n + 20]}
    c.under_test([os.path.join(d, "insp"), jp, op, sd], "inspecting", near, timeout=400 if QUICK else 3000, cwd=c.dir)
    with open(op) as f:
        return [json.loads(l) for l in f]


def inspect(c, ss, bufs, name="i"):
    jobs = [{"op": "map", "s": s, "ns": ss[s - 1].name, "j": ss[s - 1].decls[j - 1]["n"], "b": b} for s, w, j, b in bufs]
    none = {"objs": [], "root": [], "ints": []}
    return [{"s": s, "ws": w, "j": j, "b": b, "panic": x["panic"], "map": x.get("map") or none}
            for (s, w, j, b), x in zip(bufs, run_insp(c, ss, jobs, name))]
