#!/usr/bin/env python3
"""C09: see properties.jsonl; texts for the schema compiler and the code generated for them."""
from frontlib import *


def run(c):
    front(c, lambda r: [("enums", projgen.enums(QUICK, r)), ("wild", projgen.wild(QUICK, r, 300 if QUICK else 3000))], int("09"), tags_schema)


main("C09", "model_checking", run)
