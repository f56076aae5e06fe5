#!/usr/bin/env python3
"""C01: what is written through any of the generated writing interfaces is read back."""
import random
from wirelib_boot import *
from builderlib import build_cfg, walks, wide


def run(c):
    r = random.Random(SEED * 7919 + 1)
    ss = schema_set(r, 3 if QUICK else 10)
    ss.append(wide_schema(r, "wide"))
    sp = wire.tlaschemas(c, ss)
    b = build(c, ss, "c01")
    jobs = all_write_jobs(r, ss[:-1], 120 if QUICK else 300, nbig=6 if QUICK else 100, full=not QUICK)
    jobs += wide_jobs(r, ss[-1], len(ss), 4 if QUICK else 40)
    ws = wire.run_jobs(c, b, jobs, "w")
    good = [k for k, x in enumerate(ws) if x.get("b")]
    K = 2000
    bufs = [(jobs[k]["s"], jobs[k]["j"], ws[k]["b"]) for k in good]
    get = dict(zip(good, read_records(c, b, bufs, "get", K=K)))
    it = dict(zip(good, read_records(c, b, bufs, "iter", name="ri", K=K)))
    recs = []
    for k, (j, x) in enumerate(zip(jobs, ws)):
        if k in get:
            cut = get[k]["K"] != K or it[k]["K"] != K
            if cut:
                c.add(cut=1)
                continue
            recs.append({"s": j["s"], "j": j["j"], "v": j["v"], "how": j["how"], "panic": "", "view": get[k]["view"],
                         "iview": it[k]["view"], "owned": it[k]["owned"]})
        else:
            recs.append({"s": j["s"], "j": j["j"], "v": j["v"], "how": j["how"], "panic": x.get("panic") or "process ended",
                         "view": ["skip"], "iview": ["skip"], "owned": ["skip"]})
    c.sample(min(recs, key=lambda x: len(str(x))))
    for k in range(0, len(recs), 30000):
        c.validate("WireBack", recs[k:k + 30000], env={"SCHEMAS": sp}, name="b%d" % k,
                   describe=lambda q: "schema %d table %d written as %s" % (q["s"], q["j"], q["how"]))
    # behaviours of the builder model with contents of up to some 100 kB
    wide(c, "", build_cfg(c, "", "c01"), walks(c, "", 14, 100 if QUICK else 1500, r), "wide", r)
    c.add(buffers=len(bufs))
    c.assumptions += ["schemas and values are generated; the writing interfaces are owned values, references, create functions, builder chains, "
                      "builder chains with as_null/as_default, and offsets prepared beforehand"]


main("C01", "model_checking", run)
