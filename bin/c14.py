#!/usr/bin/env python3
"""C14: see properties.jsonl; generated code, against spec/Generate.tla and the Rust compiler."""
import json, random
from vlib import *
from projlib import *
import projgen, genlib, namelib


def programs(c, pool, depth, kinds, simulate=None):
    res = c.tlc("GenNames", consts={"PoolSize": pool, "Kinds": "{" + ", ".join('"%s"' % k for k in kinds) + "}", "Depth": depth},
                spec="Spec", invariants=("Distinct", "NotReserved", "Faithful", "Export"), simulate=simulate, extra=("-depth", str(depth + 3)) if simulate else ())
    out, seen = [], set()
    for l in res.text.split("\n"):
        if l.startswith('"PROG ') or l.startswith("PROG "):
            t = l.strip('"')[5:].replace('\\"', '"')
            if t not in seen:
                seen.add(t)
                out.append(json.loads(t))
    return out


def run(c):
    r = random.Random(SEED * 1000 + 14)
    quick = QUICK
    kinds = ["table", "struct", "enum", "union"]
    progs = programs(c, 6 if quick else 8, 2, kinds)
    more = programs(c, 14, 4 if quick else 5, kinds, simulate="num=%d" % (20 if quick else 3000))
    c.log("%d + %d namings" % (len(progs), len(more)))
    c.add(namings=len(progs) + len(more))
    pick = r.sample(progs, min(len(progs), 2000 if quick else 20000))
    names = [namelib.render(r, p) for p in pick]
    sim = [namelib.render(r, p) for p in r.sample(more, min(len(more), 160 if quick else 2500))]
    hz = namelib.hazards(namelib.HAZARDS)
    if quick:
        hz = r.sample(hz, 420)
    fams = [("names", names, r.sample(range(len(names)), min(len(names), 240 if quick else 4000))),
            ("sim", sim, range(len(sim))),
            ("hazards", hz, None),
            ("types", namelib.types(r, 40 if quick else 600), None),
            ("graphs", namelib.graphs(r, 150 if quick else 3000), None),
            ("docs", namelib.docs(r), None),
            ("enums", projgen.enums(quick, r)[:300 if quick else 100000], None),
            ("wild", projgen.wild(quick, r, 60 if quick else 1200), None)]
    for name, ps, comp in fams:
        ps = list(ps)
        genlib.judge(c, ps, name, True if comp is None else set(comp))


main("C14", "model_checking", run)
