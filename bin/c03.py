#!/usr/bin/env python3
"""C03: the caches change nothing that is read, and share what is equal."""
import itertools, random
from wirelib_boot import *
from builderlib import *


def run(c):
    r = random.Random(SEED * 7919 + 3)
    cfgs = ["".join(x) for n in range(4) for x in itertools.combinations("vsb", n)]
    base = behaviours(c, "vsb", 3)
    long = walks(c, "vsb", 16, 400 if QUICK else 6000, r)
    parts = []
    schema_file(c)
    for cfg in cfgs:
        behs = r.sample(base, min(len(base), 400 if QUICK else 4000)) + long
        behs += [stress(r, 60) for _ in range(3 if QUICK else 30)]
        recs = replay(c, build_cfg(c, cfg, "c03"), behs, "b" + cfg, r)
        c.sample(recs[0] if recs else None)
        big = r.sample(long, 40 if QUICK else 600)
        if len(cfg) in (1, 3):
            parts.append(lambda cfg=cfg: model(c, cfg, 3 if QUICK else 4))
        for k in range(0, len(recs), 20000):
            parts.append(lambda cfg=cfg, recs=recs, k=k: judge(c, cfg, recs[k:k + 20000], "t%s%d" % (cfg, k)))
        parts.append(lambda cfg=cfg, big=big, seed=r.random(): wide(c, cfg, os.path.join(c.dir, "builder_" + (cfg or "none")), big, "w" + cfg, random.Random(seed)))
        c.add(behaviours=len(recs), configurations=1, operations=sum(len(x["ops"]) for x in recs))
    c.each(parts)


main("C03", "model_checking", run)
