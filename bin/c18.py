#!/usr/bin/env python3
"""C18: initialisation cursors."""
import glob, json, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import *


SIZES = [0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 32, 64, 127, 128]


def walk(r, n, steps):
    """a longer random program; the specification says what it does"""
    cur, prog, nxt = [n], [], 1
    for _ in range(steps):
        if not cur:
            break
        k = r.randrange(len(cur))
        m = cur.pop(k)
        op = r.choice(["split", "split", "write", "write", "finish", "assert"] + ["drop"] * (m == 0 or r.random() < .05))
        q = r.choice([x for x in SIZES if m - x in SIZES]) if op in ("split", "write") else m if op != "drop" else 0
        vs = list(range(nxt, nxt + q)) if op in ("write", "finish") else []
        nxt += len(vs)
        prog.append([op, k + 1, q, vs])
        if op == "split":
            cur += [q, m - q]
        elif op == "write":
            cur.append(m - q)
        elif op == "assert":
            cur.append(m)
    if r.random() < .6:
        for _ in range(len(cur)):
            m = cur.pop(0)
            prog.append(["finish", 1, m, list(range(nxt, nxt + m))])
            nxt += m
    return {"n": n, "prog": prog}


def mismatches(c, d):
    """parts that do not add up: must not compile, or stop before doing anything"""
    lib = sorted(glob.glob(os.path.join(d, "deps", "libarray_init_cursor-*.rlib")), key=os.path.getmtime)[-1]
    body = {"split": "let (a, b) = c.split::<%d, %d>(); std::mem::forget((a, b));", "write": "let b = c.write::<%d, %d>([7u8; %d]); std::mem::forget(b);",
            "assert": "let b = c.assert_size::<%d>(); std::mem::forget(b);"}
    big = 2**64 - 1
    cases = [(n, l, q, op) for n in range(4) for l in range(4) for q in range(4) for op in ("split", "write")]
    cases += [(n, m, 0, "assert") for n in range(4) for m in range(5)] + [(1, 2**63, 2**63 + 1, "split"), (0, 1, big, "split"), (3, big, 4, "split")]

    def one(x):
        n, l, q, op = x
        b = body[op] % {"split": (l, q), "write": (l, q, l), "assert": (l,)}[op]
        src = os.path.join(c.dir, "m_%d_%d_%d_%s.rs" % x)
        with open(src, "w") as f:
            f.write("use std::mem::MaybeUninit; fn main() { let mut m = [MaybeUninit::<u8>::uninit(); %d]; let c = array_init_cursor::Cursor::new(&mut m); %s }" % (n, b))
        exe = src[:-3]
        p = subprocess.run(["rustc", "--edition", "2021", "-Cdebuginfo=0", "-o", exe, "--extern", "array_init_cursor=" + lib, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=cargo_env())
        if p.returncode:
            if "E0080" not in p.stdout and "sizes don't match" not in p.stdout and "too big" not in p.stdout:
                if n == (l + q) % 2**64:
                    return {"n": n, "l": l, "r": q, "op": op, "outcome": "rejected: " + p.stdout[:300]}
            out = "rejected"
        else:
            out = "ran" if subprocess.run([exe], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0 else "rejected"
            os.remove(exe)
        return {"n": n, "l": min(l, 10**6), "r": min(q, 10**6), "op": op, "outcome": out}

    with ThreadPoolExecutor(CPUS) as ex:
        return list(ex.map(one, cases))


def early(c, exe):
    res = []
    for n in range(5):
        for k in range(n + 1):
            for mode in ("panic", "error", "return"):
                p = subprocess.run([exe, "early", str(n), str(k), mode], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                res.append({"n": n, "k": k, "mode": mode, "early": p.stdout.strip() or "aborted"})
    return res


def run(c):
    n, depth = (4, 4) if QUICK else (4, 5)
    # the specification itself, then its behaviours
    c.tlc("Cursor", consts={"MaxN": 4, "Depth": depth}, spec="Spec", invariants=("TypeOK", "Disjoint", "Kept", "AllOrNothing"), properties=("Stable",))
    t = c.tlc("Cursor", consts={"MaxN": 3, "Depth": depth}, spec="Spec", invariants=("Export",))
    progs = [json.loads(json.loads('"' + m + '"')) if "\\" in m else json.loads(m) for m in re.findall(r'^"?PROG (.*?)"?$', t.text, re.M)]
    c.log("%d behaviours" % len(progs))
    if len(progs) < 1000:
        raise ToolError("TLC exported only %d behaviours" % len(progs))
    r = random.Random(SEED)
    progs += [walk(r, r.choice(SIZES) if r.random() < .3 else r.randint(0, 8), r.randint(1, 12)) for _ in range(4000 if QUICK else 40000)]
    d = c.cargo("cur", ["cur"])
    exe = os.path.join(d, "cur")
    recs = []
    for k in range(0, len(progs), 20000):
        a, b = os.path.join(c.dir, "p.ndjson"), os.path.join(c.dir, "o.ndjson")
        with open(a, "w") as f:
            f.write("".join(json.dumps(p) + "\n" for p in progs[k:k + 20000]))
        p = c.run([exe, a, b], check=False)
        lines = open(b).read().split("\n")[:-1] if os.path.exists(b) else []
        recs += [json.loads(x) for x in lines if x.endswith("}")]
        if p.returncode:
            c.violation("the cursors ended the process with code %d" % p.returncode, {"programs": progs[k + max(0, len(lines) - 5):k + len(lines) + 200]})
            return
    c.sample(recs[-1])
    c.validate("CursorTrace", recs, name="runs", describe=lambda r: ("n=%d %s" % (r["n"], r["prog"]))[:300])
    c.validate("CursorTrace", mismatches(c, d), name="sizes")
    c.validate("CursorTrace", early(c, exe), name="early", describe=lambda r: r["mode"])
    c.add(programs=len(recs))


main("C18", "model_checking", run)
