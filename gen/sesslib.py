"""Sessions of the inspector: conversion of recorded steps into records for
InspectorJudge, and the key sequences."""
import json, os
from vlib import *
from insplib import *

KEYS = ["tab", "g", "x", "h", "i", "?", "c", "C-c", "q", "enter", "esc", "bs", "up", "down", "left", "right", "C-left", "C-right",
        "C-up", "C-down", "pgup", "pgdn", "home", "end", "del", "0", "1", "7", "a", "B", "f", "Z"]


def _view(v):
    return {"byte": v["byte"], "info": v["info"][:3]}


def _state(s):
    m = s["modal"]
    if m[0] == "tree":
        m = ["tree", m[1], [_view(x) for x in m[2]]]
    return {"view": _view(s["view"]), "stack": [_view(x) for x in s["stack"]], "win": s["win"], "modal": m, "quit": s["quit"], "ls": s["ls"]}


NOSCREEN = {"rows": [], "under": [], "w": 0}


def _misfit(d, s):
    """the view holds the lines of another object, or other interpretations"""
    vs = [s["view"]] + s["stack"] + (s["modal"][2] if s["modal"][0] == "tree" else [])
    for v in vs:
        if v["info"]:
            o, l, q, ni, nl = v["info"]
            if not (0 <= v["byte"] < len(d["b"]) and 1 <= o <= len(d["objs"])) or ni != len(d["ints"][v["byte"]]) or nl != len(d["objs"][o - 1]["lines"]):
                return True
    return False


def data_of(step, b):
    return {"objs": step["objs"], "ints": step["ints"], "root": step["root"], "n": len(b), "b": b}


def records(c, datas, jobs, outs):
    """datas: per buffer; jobs: (buffer number from 1, keys)"""
    seen = set()
    out = []

    def put(r, bad):
        k = json.dumps(r, sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(r)
            if bad:
                c.violation("InspectorJudge a view mixes objects: key %s" % r["key"], r)

    for (n, keys), x in zip(jobs, outs):
        d = datas[n - 1]
        prev = None
        for st in x["steps"]:
            now = _state(st["st"])
            bad = _misfit(d, st["st"])
            base = {"d": n, "a": now if prev is None else prev, "b": now, "draw": st.get("draw", False), "panic": "", "hex": NOSCREEN,
                    "obj": NOSCREEN, "lp": 0, "dg": st["st"]["dg"], "first": 0}
            if prev is None:
                put(dict(base, kind="start", key=""), bad)
            elif len(st["key"]) == 3:
                put(dict(base, kind="draw", key="draw", hex=st["hex"], obj=st["obj"], lp=st["st"]["lp"], first=st["st"]["first"],
                         size=st["key"][1:]), bad)
            else:
                put(dict(base, kind="key", key=st["key"][0]), bad)
            prev = now
        if x["panic"]:
            done = len(x["steps"]) - 1
            put({"d": n, "a": prev, "b": prev, "draw": False, "panic": x["panic"], "hex": NOSCREEN, "obj": NOSCREEN, "lp": 0, "dg": 0, "first": 0,
                 "kind": "panic", "key": json.dumps(keys[done])}, False)
    return out


def walk(r, n, size):
    """a random session"""
    out = [["draw", r.choice([80, 100, 120, 140, 200]), r.randint(10, 60)]] if r.random() < 0.8 else []
    style = r.random()
    while len(out) < n:
        if r.random() < (0.15 if style < 0.5 else 0.04):
            out.append(["draw", r.choice([r.randint(0, 30), r.randint(20, 160), 80, 120]), r.choice([r.randint(0, 12), r.randint(0, 70)])])
        x = r.random()
        if x < 0.12:
            out += ["g"] + [r.choice("0123456789abcdefABCDEF") for _ in range(r.choice([0, 1, 1, 2, 2, 3, 17]))] + [r.choice(["enter", "enter", "esc", "bs"])]
        elif x < 0.2:
            out += ["i"] + [r.choice(["up", "down"]) for _ in range(r.randint(0, 2))] + [r.choice(["enter", "esc"])]
        elif x < 0.28:
            out += ["h"] + [r.choice(["up", "down", "up"]) for _ in range(r.randint(0, 4))] + [r.choice(["enter", "esc"])]
        elif x < 0.4:
            out += ["down"] * r.randint(1, 6) + ["enter"]
        else:
            k = r.choice(KEYS)
            if k in ("q", "C-c") and r.random() < 0.98:
                continue
            if k == "esc" and r.random() < 0.5:
                continue
            out.append(k)
    return out
