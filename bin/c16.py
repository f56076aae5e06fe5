#!/usr/bin/env python3
"""C16: which types are accepted where."""
from frontlib import *


def run(c):
    front(c, lambda r: [("types", projgen.types(QUICK, r)), ("wild", projgen.wild(QUICK, r, 600 if QUICK else 6000)),
                        ("structs", r.sample(projgen.structs(QUICK, r), 400 if QUICK else 4000))], 16)


main("C16", "model_checking", run)
