#!/usr/bin/env python3
"""C12: namespaces, includes and lookup of names."""
from frontlib import *


def run(c):
    front(c, lambda r: [("namespaces", projgen.namespaces(QUICK, r)), ("wild", projgen.wild(QUICK, r, 300 if QUICK else 3000))], 12)
    c.assumptions += ["files are named by relative paths without symbolic links"]


main("C12", "model_checking", run)
