#!/usr/bin/env python3
"""C06: vector views and iterators behave like slices."""
import json, os
from vlib import *


def run(c):
    maxn, maxk, depth = (7, 8, 4) if QUICK else (10, 11, 5)
    ks = "{" + ",".join(str(k) for k in range(1, maxk + 1)) + ",999}"
    consts = {"MaxN": maxn, "Ks": ks, "Huge": 999}
    # 1. the two layers of the specification agree
    c.tlc("VectorIter", consts=consts, init="VInit", next_="VNext", invariants=("Agree", "Partition"))
    # 2. export the abstract transitions, replay them into the real iterators
    out = os.path.join(c.dir, "rows.ndjson")
    c.tlc("VectorIterGen", consts=consts, init="GInit", next_="GNext", env={"OUT": out}, postcondition="Export")
    rows = sum(1 for _ in open(out))
    d = c.cargo("rt", ["c06"])
    p = c.under_test([os.path.join(d, "c06"), out, str(depth)], "walking the iterators", {"depth": depth}, timeout=300 if QUICK else 2000)
    r = json.loads(p.stdout)
    c.add(traces_validated_against_impl=r["walks"], replayed_steps=r["steps"], observations=r["obs"], exported_transitions=rows)
    c.sample({"row": json.loads(open(out).readline())})
    for f in r["fails"]:
        c.violation("%s: observed %s = %s, the slice gives %s" % (" / ".join(f["path"]), f["observe"], f["got"], f["want"]), f)


main("C06", "model_checking", run)
