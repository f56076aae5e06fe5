#!/usr/bin/env python3
"""C21: the graph of a project."""
from frontlib import *
from dotlib import judge_graph

HARD = ["a<b", "a&b", "&amp;", "<b>x</b>", ">", "\\\"q\\\"", "a'b", "\\n", "\\t", "\\r", "\\u0001", "\\u007f", "\\u0085", "\\uFFFE", "\\uFFFF", "]]>", "<!--", "--", "æøå", "\\u2028",
        "{x}", "a\\\\b", "default x", " ", "  two  ", "]", "[", "->", "\\u0000", "\\f", "\\b", "é\\u0301", "\U0001f600", "&lt;", "%", "#", "\\u001b[0m", "\\ud83d\\ude00"]


def strings(r):
    """string defaults with characters that mean something in a label"""
    ps = [one('table T { a: string = "%s"; b: int; }' % s, "text") for s in HARD]
    for _ in range(100 if QUICK else 1500):
        f = "".join('f%d: string = "%s"; ' % (k, "".join(r.choice(HARD) for _ in range(r.randint(0, 4)))) for k in range(r.randint(1, 4)))
        ps.append(one("table T { %s x: T; }" % f, "text"))
    return ps


def run(c):
    r = random.Random(SEED * 7919 + 21)
    part = lambda ps, n: r.sample(ps, n) if QUICK and len(ps) > n else ps
    judge_graph(c, strings(r), "strings")
    for name, n in [("ids", 400), ("structs", 600), ("enums", 300), ("defaults", 1500), ("namespaces", 500), ("types", 800)]:
        judge_graph(c, part(getattr(projgen, name)(True, r), n), name)
    judge_graph(c, projgen.wild(QUICK, r, 400 if QUICK else 4000), "wild")


main("C21", "model_checking", run)
