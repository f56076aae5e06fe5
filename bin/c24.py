#!/usr/bin/env python3
"""C24: the viewer opens what it was asked for, keeps its screen current and gives the terminal back."""
import random
from concurrent.futures import ThreadPoolExecutor
from frontlib import *
from viewlib import *
from sesslib import *

KIND = {"move": ["up", "down", "left", "right", "pgup", "pgdn", "home", "end", "tab", "C-up", "C-down", "C-left", "C-right", "c"],
        "follow": ["enter", "bs"], "dialog": ["g", "h", "i", "?"], "nothing": ["Z", "del", "x", "7"]}


def concrete(r, path, size):
    out = []
    w, h = size
    for k in path:
        if k == "start":
            continue
        if k in ("grow", "shrink", "tiny"):
            w2, h2 = {"grow": (w + r.randint(1, 60), h + r.randint(0, 20)), "shrink": (max(20, w - r.randint(1, 50)), max(5, h - r.randint(0, 15))),
                      "tiny": (r.randint(1, 12), r.randint(1, 6))}[k]
            if (w2, h2) != (w, h):
                w, h = w2, h2
                out.append(["size", w, h])
        elif k in KIND:
            if k == "follow" and r.random() < .6:
                out += ["down"] * r.randint(1, 4)
            out.append(r.choice(KIND[k]))
            if k == "dialog":
                out += {"g": [r.choice("0123456789abf") for _ in range(r.randint(0, 2))], "h": ["up"] * r.randint(0, 2),
                        "i": ["down"] * r.randint(0, 2), "?": []}[out[-1]] + r.choice([["enter"], ["esc"], []])
        else:
            out.append(k)
    return out + ["q"]      # for what did not end it, as leaving a dialog


def long(r, n, size, datasize):
    out, (w, h) = [], size
    for k in walk(r, n, datasize):
        if isinstance(k, list):
            if r.random() < .5 and [w, h] != k[1:] and k[1] > 0 and k[2] > 0:
                w, h = k[1:]
                out.append(["size", w, h])
        else:
            out.append(k)
    return out + ["q"]


def opened(c, r, exe, progs):
    """sessions of the viewer, the screens they must show computed by the inspector in this process' stead"""
    ss, sp, bufs = corpus(c, r, 60 if QUICK else 300, 200)
    size = [100, 30]
    plans = []
    paths = [p for q, p in progs if p and all(q[k] for k in ("data", "acc", "tty")) and q["root"] == "table"]
    r.shuffle(paths)
    kinds = {}
    for p in paths:                  # every sequence of two kinds is followed from some state
        kinds.setdefault(tuple(p[-3:]), []).append(p)
    some = [v[0] for v in kinds.values()] + paths
    for p in some[:max(250 if QUICK else 3000, len(kinds))]:
        n = r.randrange(len(bufs))
        plans.append((n, concrete(r, p, size)))
    for _ in range(30 if QUICK else 300):
        n = r.randrange(len(bufs))
        plans.append((n, long(r, 40, size, len(bufs[n][3]))))
    jobs = []
    for n, ks in plans:
        s, w, j, b = bufs[n]
        now, keys = size, [["screen"] + size]
        for k in ks:
            if isinstance(k, list):
                now = k[1:]
                keys.append(["screen"] + now)
            else:
                keys += [k, ["screen"] + now]
        jobs.append({"op": "keys", "s": s, "ns": ss[s - 1].name, "j": ss[s - 1].decls[j - 1]["n"], "b": b, "keys": keys})
    outs = run_insp(c, ss, jobs, "screens")

    def one_run(k):
        (n, ks), x = plans[k], outs[k]
        s, w, j, b = bufs[n]
        scr = [y["screen"] for y in x["steps"] if "screen" in y]
        scr = [[list(a), list(q)] for a, q in scr]
        if x["panic"] or any(not all(ch.isascii() or ch in "─│╭╮╰╯┌┐└┘▲▼█║├┤…·•" for ch in row) for a, _ in scr for row in a):
            return None
        want = [(a, q) for a, q in scr] + [None] * (len(ks) + 1 - len(scr))
        name = ".".join(filter(None, [ss[s - 1].name, ss[s - 1].decls[j - 1]["n"]]))
        return run_viewer(c, exe, "o%d" % k, [("s.fbs", ss[s - 1].fbs())], 0, name, b, ks, want, size)
    with ThreadPoolExecutor(CPUS) as ex:
        recs = [x for x in ex.map(one_run, range(len(plans))) if x]
    c.add(sessions=len(recs), screens=sum(len(x["steps"]) for x in recs))
    return recs


def names(r, M):
    """names a user might ask for: M the paths declared"""
    out = ["Missing", "a", "T", "x.y", "zz", ".", "a.", ".T"]
    for p in r.sample(M, min(6, len(M))):
        s = ".".join(p)
        k = r.randrange(len(s))
        out += [s, s, p[-1], s.lower(), s.upper(), s[:k] + s[k + 1:], s[:max(1, k)], s + "x", s.replace(".", ".."), "." + s, s + ".", s[::-1], s[:k] + s[k].swapcase() + s[k + 1:]]
    return [x for x in out if x and x.isascii() and x.isprintable() and not x.startswith("-")]


EMPTY = bytes([8, 0, 0, 0, 4, 0, 4, 0, 4, 0, 0, 0])       # a table without fields
MANY = "".join("table %s { x: int; }\n" % n for n in
               ["Monster", "monster", "MonsterInfo", "Mon", "Ster", "Weapon", "weaponry", "W", "MoMon", "M_o_n_s_t_e_r", "NotMonster", "T1", "T2", "T12", "Mxoxnxsxtxexr"])


def asked(c, r, exe):
    """requests: valid and invalid schemas, names of every kind, with and without data and terminal"""
    wild = r.sample(projgen.wild(True, r, 150), 80 if QUICK else 150)
    ns = r.sample(projgen.namespaces(True, r), 120 if QUICK else 800)
    bad = projgen.mutants(True, r, [p.files[0][1] for p in wild[:40]], 30 if QUICK else 200)
    pjs = [p for p in wild + ns + bad if not p.deep] + [one(x) for x in ("", "table {", "struct S{x:int;}", "enum E:int{A}", "union U{}", "table T{}",
                                                                       "namespace a.b; table T{} struct S{x:int;} enum E:int{A} union U{T} rpc_service R{}")]
    pjs += [one(MANY)] * 12 + [one("namespace game.Data;\n" + MANY + "struct MonsterS { x: int; }")] * 8
    decl = re.compile(rb"\b(?:table|struct|enum|union)\s+(\w+)")
    space = re.compile(rb"\bnamespace\s+([\w.]+)")
    runs = []
    for p in pjs:
        M = []
        for n, b in p.files:
            q = space.search(bytes(b))
            for d in decl.findall(bytes(b)):
                M.append((q[1].decode().split(".") if q else []) + [d.decode()])
        r.shuffle(M)
        big = p.files[0][1] in (B(MANY),) or b"game.Data" in bytes(p.files[0][1])
        for n in r.sample(names(r, M), 4 if big else 2):
            x = r.random()
            runs.append((p, n, None if x < .08 else EMPTY, x < .92))
    def go(k):
        p, n, data, tty = runs[k]
        return run_viewer(c, exe, "a%d" % k, p.files, p.main[0], n, data, tty=tty)
    with ThreadPoolExecutor(CPUS) as ex:
        recs = list(ex.map(go, range(len(runs))))
    c.add(requests=len(recs))
    return recs


def run(c):
    r = random.Random(SEED * 7919 + 24)
    exe = build_cli(c)
    t = c.tlc("ViewerModel", consts={"Depth": 4 if QUICK else 5}, invariants=("Restored", "Verdict", "OpenOnly", "Export"))
    progs = [json.loads(m.replace('\\"', '"')) for m in re.findall(r'^"?PROG (\[.*\])"?$', t.text, re.M)]
    c.log("%d ends of the specification" % len(progs))
    recs = opened(c, r, exe, progs)
    c.log("%d sessions" % len(recs))
    recs += asked(c, r, exe)
    c.log("%d requests" % len(recs))
    c.sample(recs[0]["steps"][:3])
    c.validate("ViewerJudge", recs, name="view", describe=lambda x: "%s of %r: code %d %s" % (
        bytes(x["name"]).decode(), bytes(x["files"][x["main"][0] - 1]["b"]).decode("utf-8", "replace")[:120], x["code"], x["detail"][:1500]))
    c.assumptions += ["names asked for are printable ASCII", "which of more than five matching tables are proposed, and in which order, is left open",
                      "colours are not compared, and where the cursor is while the viewer runs"]


main("C24", "model_checking", run)
