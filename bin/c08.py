#!/usr/bin/env python3
"""C08: see properties.jsonl; texts for the schema compiler and the code generated for them."""
from frontlib import *


def run(c):
    front(c, lambda r: [("structs", projgen.structs(QUICK, r)), ("wild", projgen.wild(QUICK, r, 300 if QUICK else 3000))], int("08"), layout_schema)


main("C08", "model_checking", run)
