#!/usr/bin/env python3
"""C05: a builder can be cleared, finished and reused."""
import random
from wirelib_boot import *
from builderlib import *


def run(c):
    r = random.Random(SEED * 7919 + 5)
    for cfg in ("vsb", ""):
        model(c, cfg, 3 if QUICK else 5)
        behs = behaviours(c, cfg, 3)
        if QUICK:
            behs = r.sample(behs, min(len(behs), 3000))
        else:
            b4 = behaviours(c, cfg, 4)
            behs += r.sample(b4, min(len(b4), 60000))
        behs += walks(c, cfg, 14, 1200 if QUICK else 20000, r)
        behs += [stress(r, 60) for _ in range(6 if QUICK else 60)]
        recs = replay(c, build_cfg(c, cfg, "c05"), behs, "b" + cfg, r)
        c.sample(recs[0] if recs else None)
        for k in range(0, len(recs), 20000):
            judge(c, cfg, recs[k:k + 20000], "t%s%d" % (cfg, k))
        wide(c, cfg, os.path.join(c.dir, "builder_" + (cfg or "none")), walks(c, cfg, 14, 150 if QUICK else 2000, r), "w" + cfg, r)
        c.add(behaviours=len(recs), operations=sum(len(x["ops"]) for x in recs))


main("C05", "model_checking", run)
