"""Behaviours of spec/BuilderModel.tla and their replay on the real builder."""
import json, os, re, random
from vlib import *
from schema import Schema


def bld_schema():
    def f(n, t, o="", d=None):
        return {"n": n, "t": t, "id": -1, "o": o, "d": d or [], "dep": False}
    D = [dict(k="struct", n="S", fa=16, f=[{"n": "x", "t": ["u64"]}, {"n": "y", "t": ["u8"]}]),
         dict(k="table", n="Node", f=[f("a", ["u8"]), f("w", ["u64"]), f("s", ["str"]), f("b", ["vec", ["u8"]]), f("n", ["ref", 2]), f("u", ["ref", 3]),
                                   f("vs", ["vec", ["str"]]), f("i", ["vec", ["i8"]]), f("v", ["vec", ["u64"]]), f("e", ["i16"], d=["sc", [5, 0]])]),
         dict(k="union", n="U", v=[{"n": "Node", "t": ["ref", 2], "named": False}, {"n": "S", "t": ["ref", 1], "named": False}, {"n": "txt", "t": ["str"], "named": True}])]
    return Schema("bld", D)


def schema_file(c):
    p = os.path.join(c.dir, "bld.json")
    if not os.path.exists(p):
        with open(p, "w") as f:
            json.dump([bld_schema().tla()], f)
    return p


CACHES = {"v": "vtable-cache", "s": "string-cache", "b": "bytes-cache"}


def build_cfg(c, cfg, tag):
    d = c.cargo("rt", ["builder"], features=",".join(CACHES[x] for x in cfg) or None, no_default=True)
    p = os.path.join(c.dir, "builder_" + (cfg or "none"))
    shutil.copy(os.path.join(d, "builder"), p)
    return p


def model(c, cfg, depth):
    """check the model exhaustively (without the history in the state)"""
    c.tlc("BuilderModel", env={"SCRIPTS": "-"}, consts={"Depth": depth, "Caches": "{%s}" % ",".join('"%s"' % x for x in cfg)},
          invariants=("Promise", "Finished", "Forgotten"), view="Core")


def behaviours(c, cfg, depth, scripts=None):
    """all behaviours of the model of that length, or those that follow scripts"""
    k = {"Depth": depth, "Caches": "{%s}" % ",".join('"%s"' % x for x in cfg)}
    env = {"SCRIPTS": "-"}
    if scripts:
        env["SCRIPTS"] = os.path.join(c.dir, "scripts.json")
        json.dump(scripts, open(env["SCRIPTS"], "w"))
    r = c.tlc("BuilderModel", env=env, consts=k, next_="GenNext", invariants=("Promise", "Finished", "Forgotten"))
    out = [json.loads(x.replace('\\"', '"')) for x in re.findall(r'^"?BEHAVIOUR (.*?)"?$', r.text, re.M)]
    if not out:
        raise ToolError("no behaviours exported:\n" + r.text[-3000:])
    return out


def walks(c, cfg, depth, n, r):
    return behaviours(c, cfg, depth, [[r.randrange(22 * 7 ** 6) for _ in range(depth)] for _ in range(n)])


def many(r, n):
    words = ["w%d" % r.randrange(n) for _ in range(n * 2)] + [chr(97 + r.randrange(26)) * r.randrange(40) for _ in range(n)]
    return [list(w.encode()) for w in words]


def stress(r, n):
    """many strings, tables and byte vectors, so that caches and buffers grow"""
    ops = []
    for rnd in range(2):
        base = len(ops)
        ops.append({"op": "many", "x": many(r, n)})
        strs, byts, tabs, vss = [], [], [], []
        for k in range(40):
            q = r.random()
            x = list(("k%d" % r.randrange(12)).encode())
            if q < .3:
                strs.append(len(ops))
                ops.append({"op": "str", "x": x, "how": r.randrange(4)})
            elif q < .5:
                byts.append(len(ops))
                ops.append({"op": "bytes", "x": x * r.randrange(3), "how": 0})
            else:
                p = lambda l: r.choice(l) if l and r.random() < .6 else -1
                tabs.append(len(ops))
                ops.append({"op": "tab", "a": r.randrange(3), "w": [r.randrange(2)] + [0] * 7, "s": p(strs), "b": p(byts), "n": -1,
                            "u": -1, "vs": -1, "i": -1, "v": -1, "e": r.choice([5, 5, 6])})
        ops.append({"op": "many", "x": many(r, n)})
        if tabs:
            ops.append({"op": "fin", "r": tabs[-1], "id": []})
        if rnd == 0:
            ops.append({"op": "clear"})
    return ops


WIDTHS = [1, 2, 63, 64, 127, 128, 255, 256, 4095, 4096, 16383, 32767, 32768, 65530, 65531, 65535, 65536, 65537, 70000, 131071, 131072, 200000]


def widen(b, r):
    """the same behaviour with every content blown up"""
    some = {}

    def run(x, text):
        # equal contents stay equal, and different ones get different lengths or bytes
        k = (bytes(x), text)
        if k not in some:
            some[k] = [[y, r.choice(WIDTHS) if q == 0 else r.choice([1, 2, 300])] for q, y in enumerate(x)]
        return some[k]
    out = []
    for o in b:
        o = dict(o)
        if o["op"] in ("str", "bytes", "ibytes"):
            o["x"] = run(o["x"], o["op"] == "str")
        elif o["op"] == "vstr":
            o["x"] = [run(x, True) for x in o["x"]]
        elif o["op"] == "v64":
            o["x"] = [[x, 1] for x in o["x"]]
            if len(o["x"]) == 2 and r.random() < .8:
                o["x"][0] = [[o["x"][0][0][0]] * 8, r.choice(WIDTHS) // 4 + 1]
        out.append(o)
    return out


def wide(c, cfg, binary, behs, name, r):
    recs = replay(c, binary, [widen(b, r) for b in behs], name, r, True)
    judge(c, cfg, recs, name, "BuilderWide")
    c.add(wide=len(recs), operations=sum(len(x["ops"]) for x in recs))


def replay(c, binary, behs, name, r, wide=False):
    jp, op = os.path.join(c.dir, name + ".jobs"), os.path.join(c.dir, name + ".out")
    with open(jp, "w") as f:
        for b in behs:
            f.write(json.dumps({"cap": r.choice([0, 0, 1, 17, 64, 1000]), "ops": b, "wide": wide}, separators=(",", ":")) + "\n")
    c.under_test([binary, jp, op], "replaying builder behaviours", {"behaviours": behs[:1]}, timeout=300 if QUICK else 2000)
    return [json.loads(l) for l in open(op)]


def judge(c, cfg, recs, name, module="BuilderTrace"):
    env = {"SCHEMAS": schema_file(c), "VCACHE": "v" if "v" in cfg else "-", "SCACHE": "s" if "s" in cfg else "-", "BCACHE": "b" if "b" in cfg else "-"}
    c.validate(module, recs, env=env, name=name, describe=lambda q: "caches '%s', %s" % (cfg, [o["op"] for o in q["ops"]]))
