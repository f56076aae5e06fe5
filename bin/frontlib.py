"""The checks of the schema compiler: texts judged by spec/SchemaJudge.tla, generated code by spec/WireCode.tla."""
import random, sys, os
from wirelib_boot import *
import projgen
from projlib import *


def front(c, families, salt, code=None, ncode=40):
    r = random.Random(SEED * 7919 + salt)
    for name, ps in families(r):
        c.log(name, len(ps))
        for k in range(0, len(ps), 20000):
            judge(c, ps[k:k + 20000], name="%s%d" % (name, k), timeout=3000)
    if code:
        ss = [code(r, "s%d" % k) for k in range(2 if QUICK else 8)]
        code_records(c, "c%02d" % salt, ss, ncode if QUICK else 4 * ncode, r, full=not QUICK)
