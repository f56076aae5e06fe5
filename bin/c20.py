#!/usr/bin/env python3
"""C20: literals, tokens and doc comments."""
from frontlib import *


def run(c):
    def fam(r):
        lits = projgen.literals(QUICK, r)
        com = projgen.comments(QUICK, r)
        base = [p.files[0][1] for p in projgen.wild(QUICK, r, 150) + com[:400]]
        return [("literals", lits), ("comments", com), ("wild", projgen.wild(QUICK, r, 200 if QUICK else 2000)),
                ("mutants", projgen.mutants(QUICK, r, base, 3000 if QUICK else 30000))]
    front(c, fam, 20)


main("C20", "model_checking", run)
