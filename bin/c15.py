#!/usr/bin/env python3
"""C15: buffer inspection shows what the buffer contains."""
import random
from wirelib_boot import *
from insplib import *


def run(c):
    r = random.Random(SEED * 7919 + 15)
    ss, sp, bufs = corpus(c, r, 1500 if QUICK else 8000, 300 if QUICK else 600)
    recs = inspect(c, ss, bufs)
    c.sample(min((x for x in recs), key=lambda x: len(str(x))))
    for k in range(0, len(recs), 4000):
        c.validate("InspectJudge", recs[k:k + 4000], env={"SCHEMAS": sp}, name="m%d" % k,
                   describe=lambda x: "%d bytes of table %d, schema %s, written with %s" % (len(x["b"]), x["j"], ss[x["s"] - 1].name, ss[x["ws"] - 1].name))
    c.add(buffers=len(recs), bytes=sum(len(x["b"]) for x in recs), newer=sum(x["s"] != x["ws"] for x in recs),
          objects=sum(len(x["map"]["objs"]) for x in recs))
    c.assumptions += ["element types of vectors of builtin types are shown in a debugging notation that is not judged, their lengths are",
                      "the extent of a table is that of its vtable offset and its known fields"]


main("C15", "model_checking", run)
