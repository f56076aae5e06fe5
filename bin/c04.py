#!/usr/bin/env python3
"""C04: reading arbitrary bytes is total and exact."""
import random
from wirelib_boot import *


def run(c):
    r = random.Random(SEED * 7919 + 4)
    ss = schema_set(r, 2 if QUICK else 6)
    sp = wire.tlaschemas(c, ss)
    nmut, nsweep = (9000, 16000) if QUICK else (120000, 10**9)
    for xv in (False, True):
        b = build(c, ss, "c04", features="xv" if xv else None)
        bufs = []
        jobs = write_jobs(r, ss, 5 if QUICK else 12, hows=["owned", "offsets"])
        for j, x in zip(jobs, wire.run_jobs(c, b, jobs, "w")):
            if x.get("b"):
                bufs.append((j["s"], j["j"], x["b"]))
        for k in range(60 if QUICK else 400):
            i = r.randrange(len(ss))
            j = r.choice(tables(ss[i]))
            bufs.append((i + 1, j, Foreign(r, ss[i], vt_before=k % 8 == 0, aligned=k % 3 > 0).write(j, rand_value(r, ss[i], ["ref", j], 2))))
        for i, s in enumerate(ss):
            for n in range(0, 9):
                bufs.append((i + 1, s.root, [0] * n))
                bufs.append((i + 1, s.root, [r.randrange(8) for _ in range(n * 4)]))
        small = [x for x in bufs if len(x[2]) < 400]
        mut = list(bufs)
        for q in range(nmut if not xv else nmut // 3):
            s, j, b0 = r.choice(small)
            mut.append((s, j, mutate(r, b0)))
        # exhaustive boundary sweep over small buffers of the small schema
        S = ss[1]
        sw = []
        for q in range(2 if QUICK else 6):
            j = S.root
            v = rand_value(r, S, ["ref", j], 2)
            for _ in range(60):
                w = rand_value(r, S, ["ref", j], 2)
                # prefer values with many fields present but few bytes
                if score(w) > score(v):
                    v = w
            b0 = Foreign(r, S, junk=False, extra=False).write(j, v)
            if q % 2 and not xv:
                x = wire.run_jobs(c, b, [{"op": "write", "s": 2, "j": j, "v": v, "how": "owned", "id": None}], "w")[0]
                b0 = x.get("b") or b0
            sw += [(2, j, x) for x in sweep(b0)]
        if xv:
            sw = r.sample(sw, min(len(sw), nsweep // 8))
        elif len(sw) > nsweep:
            sw = r.sample(sw, nsweep)
        for mode in ("get", "iter"):
            recs = read_records(c, b, mut if not (xv and QUICK and mode == "get") else mut[:1500], mode)
            c.sample({k: recs[0][k] for k in ("s", "j", "b", "view")})
            n = c.validate("WireRead", recs, env={"SCHEMAS": sp, "XV": "1" if xv else "0"}, name="m" + mode, describe=desc)
            part = sw if not QUICK else sw[0 if mode == "get" else 1::2]
            for k in range(0, len(part), 60000):
                recs = read_records(c, b, part[k:k + 60000], mode)
                c.validate("WireRead", recs, env={"SCHEMAS": sp, "XV": "1" if xv else "0"}, name="s%s%d" % (mode, k), describe=desc)
        c.add(buffers=len(mut) + len(sw))
    c.assumptions += ["tables nested deeper than 10 levels and vector elements past the 40th are not looked at",
                      "a saturated word (magnitude >= 2^30) is indistinguishable from another one, buffers are far smaller"]


def score(v):
    return sum(x[0] != "none" for x in v[2]) * 20 - len(str(v)) / 10


def desc(r):
    return "schema %d table %d, %d bytes, %s" % (r["s"], r["j"], len(r["b"]), r["mode"])


main("C04", "model_checking", run)
