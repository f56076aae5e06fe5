#!/usr/bin/env python3
"""C11: versions of a schema read each other's data."""
import random
from wirelib_boot import *


def run(c):
    r = random.Random(SEED * 7919 + 11)
    fams = 4 if QUICK else 8
    ss = []
    for k in range(fams):
        b = random_schema(r, "v%da" % k, ids=0.6, n_table=4, big=k % 4 == 3)
        b.family = "v%d" % k
        c1 = evolve(r, b, "v%db" % k)
        ss += [b, c1, evolve(r, c1, "v%dc" % k)]
    sp = wire.tlaschemas(c, ss)
    b = build(c, ss, "c11")
    recs, jobs = [], []
    for a, x in enumerate(ss):
        for b2, y in enumerate(ss):
            if x.family == y.family:
                recs.append({"op": "versions", "s": a + 1, "rs": b2 + 1, "j": 0, "view": []})
    for j in all_write_jobs(r, ss, 120 if QUICK else 250, hows=["owned", "offsets"], nbig=0, ids=False):
        jobs.append(j)
    ws = wire.run_jobs(c, b, jobs, "w")
    rd = []
    for j, x in zip(jobs, ws):
        for t in range(len(ss)):
            if ss[t].family == ss[j["s"] - 1].family and t + 1 != j["s"]:
                if j["j"] <= len(ss[t].decls) and j["j"] <= len(ss[j["s"] - 1].decls):
                    rd.append((j, x, t + 1))
    ok = [k for k, (j, x, t) in enumerate(rd) if x.get("b")]
    bufs = [(rd[k][2], rd[k][0]["j"], rd[k][1]["b"]) for k in ok]
    get = dict(zip(ok, read_records(c, b, bufs, "get", K=2000)))
    it = dict(zip(ok, read_records(c, b, bufs, "iter", name="ri", K=2000)))
    for k, (j, x, t) in enumerate(rd):
        q = {"op": "read", "s": j["s"], "rs": t, "j": j["j"], "v": j["v"], "panic": "", "view": ["skip"], "iview": ["skip"], "owned": ["skip"]}
        if k in get:
            q.update(view=get[k]["view"], iview=it[k]["view"], owned=it[k]["owned"])
        else:
            q["panic"] = x.get("panic") or "process ended"
        recs.append(q)
    c.sample(min(recs[50:], key=lambda x: len(str(x))))
    for k in range(0, len(recs), 30000):
        c.validate("Evolve", recs[k:k + 30000], env={"SCHEMAS": sp}, name="e%d" % k,
                   describe=lambda q: "written with version %s, read with %s, table %d" % (ss[q["s"] - 1].name, ss[q["rs"] - 1].name, q["j"]))
    errs = sum("UnknownUnionTag" in str(q["view"]) or "UnknownEnumTag" in str(q["view"]) for q in recs)
    c.add(cross_version_reads=len(recs), with_unknown_tags=errs)
    c.assumptions += ["versions evolve by appended or new-id fields, deprecations, appended enum and union variants and new declarations; renaming and type changes are outside the property"]


main("C11", "model_checking", run)
