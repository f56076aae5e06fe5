#!/usr/bin/env python3
"""C02: finished buffers are well-formed."""
import random
from wirelib_boot import *


def run(c):
    r = random.Random(SEED * 7919 + 2)
    ss = schema_set(r, 4 if QUICK else 12)
    ss.append(wide_schema(r, "wide"))
    sp = wire.tlaschemas(c, ss)
    b = build(c, ss, "c02")
    jobs = all_write_jobs(r, ss[:-1], 120 if QUICK else 400, nbig=6 if QUICK else 100, full=not QUICK)
    jobs += wide_jobs(r, ss[-1], len(ss), 4 if QUICK else 40)
    ws = wire.run_jobs(c, b, jobs, "w")
    recs = []
    for j, x in zip(jobs, ws):
        recs.append({"s": j["s"], "j": j["j"], "b": x.get("b") or [], "id": j["id"] or [],
                     "panic": "process ended" if "crash" in x else x["panic"]})
    c.sample(min(recs, key=lambda x: len(str(x))))
    for k in range(0, len(recs), 30000):
        c.validate("WireForm", recs[k:k + 30000], env={"SCHEMAS": sp}, name="f%d" % k,
                   describe=lambda q: "schema %d table %d, %d bytes" % (q["s"], q["j"], len(q["b"])))
    c.add(buffers=len(recs))


main("C02", "model_checking", run)
