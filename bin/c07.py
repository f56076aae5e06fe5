#!/usr/bin/env python3
"""C07: see properties.jsonl; texts for the schema compiler and the code generated for them."""
from frontlib import *


def run(c):
    front(c, lambda r: [("ids", projgen.ids(QUICK, r)), ("wild", projgen.wild(QUICK, r, 300 if QUICK else 3000))], int("07"), ids_schema)


main("C07", "model_checking", run)
