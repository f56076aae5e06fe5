"""What the checks of the wire format share: schema sets, values, buffers, records."""
import os, random, struct
from vlib import *
import wire
from schema import *
from foreign import Foreign


def schema_set(r, n, prefix="r"):
    return [full_schema("full"), small_schema("small")] + [random_schema(r, "%s%d" % (prefix, i), big=i % 3 == 2, forced=.5 if i % 4 == 1 else .1) for i in range(n)]


def build(c, schemas, tag, features=None, no_default=False, bins=("wire",), values=False):
    d = os.path.join(BUILD, "schemas", tag)
    wire.install(d, schemas, values)
    return os.path.join(c.cargo("rt", list(bins), env={"VERIF_SCHEMAS": d}, features=features, no_default=no_default), bins[0])


def tables(s):
    return [i + 1 for i, d in enumerate(s.decls) if d["k"] == "table"]


HOWS = ["owned", "ownedref", "create", "chain", "minimal", "offsets"]


def write_jobs(r, schemas, n, hows=HOWS, depth=3, ids=False, root_only=False):
    jobs = []
    for i, s in enumerate(schemas):
        ts = tables(s)
        for k in range(n):
            j = s.root if root_only or r.random() < 0.5 else r.choice(ts)
            v = rand_value(r, s, ["ref", j], depth)
            for how in hows:
                jobs.append({"op": "write", "s": i + 1, "j": j, "v": v, "how": how,
                             "id": [r.randint(32, 126) for _ in range(4)] if ids and r.random() < 0.5 else None})
    return jobs


def wide_jobs(r, s, i, n):
    """values of the tables of a wide_schema"""
    V, W = s.root - 1, s.root
    jobs = []
    for how in HOWS:
        for k in range(n):
            v = rand_value(r, s, ["ref", V], 1)
            keep = r.choice([range(0, 200), range(60, 140), range(126, 127), range(122, 200), range(149, 150)])
            v[2] = [x if q in keep and r.random() < .8 else ["none"] if s.decls[V - 1]["f"][q]["t"] not in (["u8"], ["i16"], ["u32"], ["f64"]) else ["sc", [0] * len(x[1])] for q, x in enumerate(v[2])]
            jobs.append({"op": "write", "s": i, "j": V, "v": v, "how": how, "id": None})
        jobs.append({"op": "write", "s": i, "j": W, "v": rand_value(r, s, ["ref", W], 1), "how": how, "id": None})
    return jobs


def read_records(c, binary, bufs, mode, name="r", D=10, K=40, at=None):
    """bufs: (schema number, table, bytes)"""
    jb = []
    for q, (s, j, b) in enumerate(bufs):
        jb.append({"op": "read", "s": s, "j": j, "b": b, "mode": mode, "D": D, "K": K, "at": at or ("start" if q % 4 == 3 else "end")})
    out = []
    for j, x in zip(jb, wire.run_jobs(c, binary, jb, name)):
        if "crash" in x:
            c.violation("reading %d bytes as table %d of schema %d ends the process (%s)" % (len(j["b"]), j["j"], j["s"], x["crash"]), j)
            x = {"view": ["crash"], "owned": ["skip"], "D": D, "K": K}
        out.append({"s": j["s"], "j": j["j"], "b": j["b"], "mode": mode, "D": x["D"], "K": x["K"], "view": x["view"], "owned": x["owned"]})
    return out


def mutate(r, b):
    b = list(b)
    for z in range(r.randint(1, 2)):
        if not b:
            break
        p = r.randrange(len(b))
        q = r.random()
        if q < .25:
            b[p] = r.randrange(256)
        elif q < .45:
            b[p] = r.randrange(32)
        elif q < .85:
            b[p] = (b[p] + r.choice([1, -1, 2, 4, -4])) % 256
        elif q < .95:
            w = r.choice([2, 4])
            p = p // w * w
            x = r.choice([0, len(b), len(b) - 1, len(b) - p, len(b) - p - 1, len(b) - p - 4, len(b) - p - 3, 2**31 - 1, 2**31, 2**32 - 1, 2**32 - p,
                          2**32 - 4, r.randrange(len(b)), r.randrange(1 << 32)])
            b[p:p + w] = list((x & (2**(8 * w) - 1)).to_bytes(w, "little"))[:max(0, len(b) - p)]
        else:
            w = r.randrange(1, 9)
            b[p:p] = [r.randrange(256) for _ in range(w)] if r.random() < .5 else []
            if r.random() < .5:
                del b[p:p + w]
    if r.random() < .12:
        b = b[:r.randrange(len(b) + 1)]
    return b


def sweep(b):
    """every byte, half word and word at every place set to every value near the size of the buffer"""
    n = len(b)
    for p in range(n):
        for x in list(range(0, 12)) + [127, 128, 129, 254, 255]:
            if b[p] != x:
                yield b[:p] + [x] + b[p + 1:]
    for w in (2, 4):
        for p in range(0, n - w + 1, 2):
            vals = set(range(0, n + 9)) | {n - p + k for k in range(-6, 7)}
            for k in range(0, 9):
                vals |= {2**(8 * w) - k, 2**(8 * w - 1) - k, 2**(8 * w - 1) + k, 2**(8 * w) - p - k + 4, 2**(8*w-2)-k}
            for x in vals:
                x = (x & (2**(8 * w) - 1)).to_bytes(w, "little")
                if bytes(b[p:p + w]) != x:
                    yield b[:p] + list(x) + b[p + w:]
    for k in range(n):
        yield b[:k]


def big_values(r, s, n=3):
    """values that make the buffer grow many times and its offsets large"""
    out = []
    for j in tables(s):
        d = s.decls[j - 1]
        for k, f in enumerate(x for x in d["f"] if not x["dep"]):
            if s.kind(f["t"]) in ("vec", "str"):
                out.append((j, k, f))
    res = []
    for j, k, f in (r.sample(out, min(n, len(out))) if n < len(out) else out):
        v = rand_value(r, s, ["ref", j], 2)
        if f["t"] == ["str"]:
            v[2][k] = ["str", [r.randint(97, 122) for _ in range(r.choice([255, 256, 1500, 4000]))]]
        else:
            ek = s.kind(f["t"][1])
            m = r.choice([100, 600]) if ek in ("scalar", "enum") else r.choice([20, 40]) if ek in ("str", "struct") else 12
            v[2][k] = ["vec", m, [rand_value(r, s, f["t"][1], 1) for _ in range(m)]]
        res.append((j, v))
    return res


def special_values(s, j):
    """every table field in turn at each of its interesting scalar values, everything else at its minimum"""
    d = s.decls[j - 1]
    fs = [f for f in d["f"] if not f["dep"]]
    rr = random.Random(7)
    base = []
    for f in fs:
        if f["o"] == "req":
            base.append(rand_value(rr, s, f["t"], 0))
        elif s.is_plain(f["t"], f):
            k = s.kind(f["t"])
            if k == "enum":
                base.append(["sc", le(s.d(f["t"])["base"], s.enum_vals(s.d(f["t"]))[0])])
            elif k == "scalar":
                base.append(f["d"] or ["sc", [0] * size(f["t"][0])])
            else:
                base.append(f["d"])
        else:
            base.append(["none"])
    yield ["tab", j, list(base)]
    for k, f in enumerate(fs):
        kind = s.kind(f["t"])
        vals = []
        if kind == "scalar":
            t = f["t"][0]
            if t == "bool":
                vals = [[0], [1]]
            elif t in INTS:
                lo, hi = rng_of(t)
                vals = [le(t, x) for x in {0, 1, hi, lo, hi // 2 + 1}]
            else:
                fm = "<f" if t == "f32" else "<d"
                vals = [list(struct.pack(fm, x)) for x in (0.0, -0.0, 1.0, float("inf"), float("-inf"))]
                vals += [list(struct.pack("<I", 0x7fc00001)) if t == "f32" else list(struct.pack("<Q", 0x7ff8000000000001))]
                vals += [[1] + [0] * (size(t) - 1)]
            if f["d"]:
                vals.append(f["d"][1])
                if t not in INTS and t != "bool":
                    vals.append(f["d"][1][:-1] + [f["d"][1][-1] ^ 128])
        elif kind == "enum":
            vals = [le(s.d(f["t"])["base"], x) for x in s.enum_vals(s.d(f["t"]))]
        elif kind == "str":
            for x in ["", "a", "\u00e9\u20ac\U0001f600", "nul\0"]:
                yield ["tab", j, base[:k] + [["str", list(x.encode())]] + base[k + 1:]]
        elif kind == "vec":
            for n in (0, 1, 2, 3, 5):
                yield ["tab", j, base[:k] + [["vec", n, [rand_value(rr, s, f["t"][1], 1) for _ in range(n)]]] + base[k + 1:]]
        elif kind == "union":
            u = s.d(f["t"])
            for q, x in enumerate(u["v"]):
                yield ["tab", j, base[:k] + [["un", q + 1, rand_value(rr, s, x["t"], 1)]] + base[k + 1:]]
        else:
            yield ["tab", j, base[:k] + [rand_value(rr, s, f["t"], 1)] + base[k + 1:]]
        for x in vals:
            yield ["tab", j, base[:k] + [["sc", x]] + base[k + 1:]]


def all_write_jobs(r, ss, n, hows=HOWS, nbig=3, ids=True, full=False):
    jobs = write_jobs(r, ss, n, hows=hows, ids=ids)
    for i, s in enumerate(ss):
        for j, v in big_values(r, s, nbig):
            jobs.append({"op": "write", "s": i + 1, "j": j, "v": v, "how": r.choice(["owned", "create", "offsets", "chain"]), "id": None, "big": 1})
        for j in tables(s):
            for v in special_values(s, j):
                for how in (hows if full else [r.choice(["owned", "create", "chain", "offsets"])]):
                    jobs.append({"op": "write", "s": i + 1, "j": j, "v": v, "how": how, "id": None})
    for q, j in enumerate(jobs):
        j["reuse"] = q % 3 == 1
    return jobs


def code_records(c, tag, ss, n, r, hows=HOWS, full=True):
    """writes, reads and defaults of the generated code of the schemas, judged by spec/WireCode.tla"""
    sp = wire.tlaschemas(c, ss)
    b = build(c, ss, tag)
    jobs = write_jobs(r, ss, n, hows=hows)
    for i, s in enumerate(ss):
        for j in tables(s):
            for v in special_values(s, j):
                for how in (hows if full else [r.choice(hows)]):
                    jobs.append({"op": "write", "s": i + 1, "j": j, "v": v, "how": how, "id": None, "reuse": r.random() < .3})
    ws = wire.run_jobs(c, b, jobs, "w")
    good = [k for k, x in enumerate(ws) if x.get("b")]
    bufs = [(jobs[k]["s"], jobs[k]["j"], ws[k]["b"]) for k in good]
    get = dict(zip(good, read_records(c, b, bufs, "get", K=2000)))
    it = dict(zip(good, read_records(c, b, bufs, "iter", name="ri", K=2000)))
    recs = []
    for k, (j, x) in enumerate(zip(jobs, ws)):
        q = {"op": "value", "s": j["s"], "j": j["j"], "v": j["v"], "how": j["how"], "b": x.get("b") or [], "panic": "", "view": ["skip"], "iview": ["skip"], "owned": ["skip"]}
        if k in get:
            if get[k]["K"] != 2000 or it[k]["K"] != 2000:
                c.add(cut=1)
                continue
            q.update(view=get[k]["view"], iview=it[k]["view"], owned=it[k]["owned"])
        else:
            q["panic"] = x.get("panic") or "process ended"
        recs.append(q)
    dj = [{"op": "default", "s": i + 1, "j": j} for i, s in enumerate(ss) for j in tables(s)]
    for j, x in zip(dj, wire.run_jobs(c, b, dj, "d")):
        if x.get("owned") is not None:
            recs.append({"op": "default", "s": j["s"], "j": j["j"], "owned": x.get("owned", ["crash"])})
    c.sample(min(recs, key=lambda x: len(str(x))))
    for k in range(0, len(recs), 30000):
        c.validate("WireCode", recs[k:k + 30000], env={"SCHEMAS": sp}, name="c%d" % k, inv="Judged",
                   describe=lambda q: "%s of schema %s table %s %s" % (q["op"], ss[q["s"] - 1].name, ss[q["s"] - 1].decls[q["j"] - 1]["n"], q.get("how", "")))
    c.add(generated_code_records=len(recs))
