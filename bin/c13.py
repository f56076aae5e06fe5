#!/usr/bin/env python3
"""C13: formatting."""
from frontlib import *
from fmtlib import judge_format


def run(c):
    r = random.Random(SEED * 7919 + 13)
    wild = projgen.wild(QUICK, r, 400 if QUICK else 4000)
    fmts = projgen.formats(QUICK, r)
    com = projgen.comments(True, r)
    lits = projgen.literals(True, r)
    base = [p.files[0][1] for p in r.sample(wild, 150) + r.sample(fmts, 300)]
    for name, ps in [("formats", fmts), ("comments", r.sample(com, 1500) if QUICK else com), ("literals", r.sample(lits, 500) if QUICK else lits),
                     ("wild", wild), ("mutants", projgen.mutants(QUICK, r, base, 2500 if QUICK else 30000))]:
        c.log(name, len(ps))
        judge_format(c, ps, name)


main("C13", "model_checking", run)
