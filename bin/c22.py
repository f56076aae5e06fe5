#!/usr/bin/env python3
"""C22: comparing, hashing, copying and converting values of generated types."""
from wirelib_boot import *


def near(r, s, t, v):
    """a value that differs from v in few places"""
    v = list(v)
    if v[0] == "sc":
        k = s.kind(t)
        return rand_value(r, s, t, 1)
    if v[0] == "str":
        b = bytes(v[1]).decode()
        return ["str", list(r.choice([b + "a", b[:-1], b + "\0", "b" + b[1:], b.upper(), b]).encode())]
    if v[0] == "un":
        return rand_value(r, s, t, 1) if r.random() < .3 else ["un", v[1], near(r, s, s.d(t)["v"][v[1] - 1]["t"], v[2])]
    if v[0] == "none":
        return v
    d = s.d(t) if t[0] == "ref" else None
    if v[0] == "vec":
        xs, ts = list(v[2]), None
        q = r.random()
        if q < .25 and xs:
            xs.pop(r.randrange(len(xs)))
        elif q < .5:
            xs.insert(r.randint(0, len(xs)), rand_value(r, s, t[1], 0))
        elif xs:
            k = r.randrange(len(xs))
            xs[k] = near(r, s, t[1], xs[k])
        return ["vec", len(xs), xs]
    fs = [f for f in d["f"] if not f.get("dep")]
    xs = list(v[-1])
    if xs:
        for _ in range(r.choice([1, 1, 2])):
            k = r.randrange(len(xs))
            f = fs[k]
            if v[0] == "tab" and not s.is_plain(f["t"], f) and (xs[k][0] == "none" or r.random() < .3):
                xs[k] = rand_value(r, s, f["t"], 0) if xs[k][0] == "none" else ["none"]
            else:
                xs[k] = near(r, s, f["t"], xs[k])
    return v[:-1] + [xs]


def nans(r, s, t, v):
    """the same value with some floats replaced by NaN or a zero"""
    k = s.kind(t)
    if k == "scalar":
        return ["sc", list(struct.pack("<f" if t[0] == "f32" else "<d", r.choice([float("nan"), 0.0, -0.0])))] if t[0] in ("f32", "f64") and r.random() < .4 else v
    if v[0] in ("sc", "str", "none"):
        return v
    if v[0] == "un":
        return ["un", v[1], nans(r, s, s.d(t)["v"][v[1] - 1]["t"], v[2])]
    ts = [t[1]] * len(v[2]) if v[0] == "vec" else [f["t"] for f in s.d(t)["f"] if not f.get("dep")]
    return v[:-1] + [[nans(r, s, x, y) for x, y in zip(ts, v[-1])]]


def jobs_for(r, s, n, i):
    out = []
    help = {d["helps"]: j + 1 for j, d in enumerate(s.decls) if d.get("helps")}
    for j, d in enumerate(s.decls):
        t = ["ref", j + 1]
        if d.get("helps"):
            continue
        if d["k"] == "enum":
            vs = s.enum_vals(d)
            lo, hi = rng_of(d["base"])
            ns = sorted({x for v in vs + [0, lo, hi] for x in (v - 1, v, v + 1, v ^ 1, v + 256, v - 256) if lo <= x <= hi} | (set(range(lo, hi + 1)) if hi - lo < 256 else set()))
            out.append({"op": "enum", "s": i, "j": j + 1, "n": [["sc", le(d["base"], x)] for x in ns]})
            for a in r.sample(vs, min(5, len(vs))):
                for b in r.sample(vs, min(5, len(vs))):
                    out.append({"op": "pair", "s": i, "j": j + 1, "a": ["sc", le(d["base"], a)], "b": ["sc", le(d["base"], b)]})
            continue
        for k in range(n):
            a = rand_value(r, s, t, 2)
            q = r.random()
            b = a if q < .1 else rand_value(r, s, t, 2) if q < .3 else near(r, s, t, a)
            if r.random() < .3:
                a, b = nans(r, s, t, a), nans(r, s, t, b)
            for x, y in ((a, b), (b, a), (a, a)):
                q = {"op": "pair", "s": i, "j": j + 1, "a": x, "b": y}
                if j + 1 in help and r.random() < .6:      # written by another program, with anything as padding
                    q["z"] = list(Foreign(r, s, extra=False).write(help[j + 1], ["tab", help[j + 1], [["vec", 2, [x, y]]]]))
                out.append(q)
        if d["k"] == "struct":
            out.append({"op": "default", "s": i, "j": j + 1, "a": rand_value(r, s, t, 1)})
    return out


def plain_schema(r, name):
    """structs, unions and tables without enums or floats, so that everything is ordered"""
    s = layout_schema(r, name)
    kill = lambda t: [{"f32": "i32", "f64": "i64"}.get(t[0], t[0])] if len(t) == 1 else t
    for d in s.decls:
        for f in d.get("f", []):
            t = kill(f["t"])
            f["t"] = [r.choice(["i8", "u16", "i64", "bool"])] if d["k"] == "struct" and s.kind(t) == "enum" else t
        if d["k"] == "struct":
            d["fa"] = 0
    for d in s.decls:
        for f in d.get("f", []):
            if f.get("fa") and d["k"] == "table":
                f["fa"] = 0
    u = next(d for d in s.decls if d["k"] == "union")
    if name == "pb":
        u["v"].append({"n": "txt", "t": ["str"], "named": True})
    return s


def run(c):
    r = random.Random(SEED * 7919 + 22)
    ss = [full_schema("full"), tags_schema(r, "tags"), plain_schema(r, "pa"), plain_schema(r, "pb"), layout_schema(r, "lay")]
    ss += [random_schema(r, "r%d" % k) for k in range(2 if QUICK else 8)]
    ss = [with_helpers(s) for s in ss]
    b = build(c, ss, "c22", bins=("vals",), values=True)
    sp = wire.tlaschemas(c, ss)
    jobs = [j for i, s in enumerate(ss) for j in jobs_for(r, s, 40 if QUICK else 400, i + 1)]
    recs = []
    for j, x in zip(jobs, wire.run_jobs(c, b, jobs, "v")):
        q = {"op": j["op"], "s": j["s"], "j": j["j"], "panic": x.get("panic") or ("the process ended" if "crash" in x else "")}
        if not q["panic"]:
            q.update({k: v for k, v in x.items()})
            if j["op"] == "default":
                q["d"] = x["d"] or ["none"]
            elif j["op"] == "enum":
                q["n"] = [v[1] for v in j["n"]]
        if j["op"] == "pair":
            q.update(a=j["a"], b=j["b"])
        recs.append(q)
    c.sample(min((q for q in recs if q["op"] == "pair"), key=lambda q: len(str(q))))
    for k in range(0, len(recs), 30000):
        c.validate("ValuesJudge", recs[k:k + 30000], env={"SCHEMAS": sp}, name="v%d" % k,
                   describe=lambda q: "%s of %s.%s %s" % (q["op"], ss[q["s"] - 1].name, ss[q["s"] - 1].decls[q["j"] - 1]["n"], str((q.get("a"), q.get("b")))[:300]))
    c.add(pairs=sum(q["op"] == "pair" for q in recs))


main("C22", "model_checking", run)
