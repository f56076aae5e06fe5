#!/usr/bin/env python3
"""C10: see properties.jsonl; texts for the schema compiler and the code generated for them."""
from frontlib import *


def run(c):
    front(c, lambda r: [("defaults", projgen.defaults(QUICK, r)), ("wild", projgen.wild(QUICK, r, 300 if QUICK else 3000))], int("10"), modes_schema)


main("C10", "model_checking", run)
