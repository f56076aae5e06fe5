#!/usr/bin/env python3
"""C17: the command line tool's verdicts, exit codes and files."""
import random, resource
from concurrent.futures import ThreadPoolExecutor
from frontlib import *
from clilib import *

GOOD = ["table T { a: int; }", "namespace a.b;\nenum E : byte { A, B = 5 }\nstruct S { x: float; e: E; }\ntable T { s: S; u: U; v: [T]; }\nunion U { T }\n",
        "/// doc\ntable Q { s: string (required); } // end\nroot_type Q;", "", "// nothing\n", "\ufeff" * 0 + "struct P { a: [int: 3]; }", "union V { x: W }\ntable W { }"]
GOOD2 = ["table T2 { a: int; }", "namespace z;\ntable T { s: string; }", "include \"a.fbs\";\ntable X2 { }", "struct S2 { a: ubyte; b: double; }"]
BAD = ["table T { a: Missing; }", "struct S { s: S; }", "enum E : byte { A = 300 }", "table T { a: int; a: int; }", "include \"nowhere.fbs\";", "table T { a: int (id: 1); }",
       "attribute \"x\";", "table T { a: [[int]]; }", "table A { } table A { }"]
UGLY = ["table T { a: int }", "table", "table T { a: = ; }", "}", "table T { a: int; } /* open", "\"open", "table T { a: int = 0x; }", "\0", "namespace ;", "enum E { A"]
BYTES = [b"\xff\xfe\0\0", b"table T { a: int; } // \xe9\n", b"\xc3", b"\xed\xa0\x80", bytes(range(256))]


def replay(c, exe, fake, k, prog, r, pool):
    s = Session(c, exe, fake, k)
    pick = {}

    def text(x):
        if x == "old":
            return b"old content\n"
        if x not in pick:
            pick[x] = r.choice(pool[x])
        t = pick[x]
        return t.encode() if isinstance(t, str) else t
    for a in prog:
        if a[0] == "init":
            for n, e in a[1].items():
                s.mkdir(n) if e[0] == "dir" else s.put(n, text(e[1][1]))
        elif a[0] == "put":
            s.put(a[1], text(a[2]))
        elif a[0] == "mkdir":
            s.mkdir(a[1])
        elif a[0] == "remove":
            s.remove(a[1])
        else:
            x = a[1]
            s.run(x["op"], x["in"], x["out"], x["fmt"], "works" if x["rustfmt"] == "works" else r.choice(sorted(fake)))
    s.close()
    return s


def sweep(c, exe, fake, k, pj, r):
    """every command on one project"""
    s = Session(c, exe, fake, k, pj.deep)
    for n, b in pj.files:
        s.put(n, b)
    s.put("keep", b"keep\n")
    ins = [pj.files[m][0] for m in pj.main]
    s.run("check", ins)
    s.run("dot", ins, "out.dot")
    s.run("rust", ins, r.choice(["out.rs", "keep"]), fmt=r.random() < 0.15)
    s.run("format", ins[:1])
    if r.random() < 0.3:
        s.run("view", ins[:1], extra=["No.Such_type", s.at + "keep"])
    s.close()
    return s


def deep(n):
    return [("nested list types", "table T{a:" + "[" * n + "int" + "]" * n + ";}"), ("unclosed list types", "table T{a:" + "[" * n),
            ("signs", "table T{a:int=" + "-" * n + "1;}"), ("nested list values", "table T{a:int(id:" + "[" * n + "1" + "]" * n + ");}"),
            ("parts of a namespace", "namespace " + ".".join(["a"] * n) + ";table T{a:int;}"), ("braces", "{" * n), ("parentheses", "table T(" + "(" * n),
            ("comments", "/*" * n + "*/" * n), ("long name", "table " + "x" * n + "{}"), ("many fields", "table T{" + "".join("f%d:int;" % k for k in range(n)) + "}")]


DEEPEST = ("nested list types", "signs", "nested list values", "comments", "long name", "braces")


def run(c):
    r = random.Random(SEED * 7919 + 17)
    exe = build_cli(c)
    fake = fakes(c)
    t = c.tlc("CliModel", consts={"Depth": 3 if QUICK else 4}, view="Seen", invariants=("Outputs", "Agree", "Export"), properties=("Harmless",))
    progs = [json.loads(m.replace('\\"', '"')) for m in re.findall(r'^"?PROG (\[.*\])"?$', t.text, re.M)]
    c.log("%d states exported" % len(progs))
    r.shuffle(progs)
    # histories with an end from every class of (command that changes nothing, what its files are)
    seen, hists, rest = {}, [], []
    for path, st, idle in progs:
        r.shuffle(idle)
        new = []
        for x in idle:
            key = json.dumps([x, [st.get(n) for n in x["in"] + [x["out"]]]])
            if seen.get(key, 0) < (2 if QUICK else 8):
                seen[key] = seen.get(key, 0) + 1
                new.append(["run", x])
        for q in range(0, len(new), 6):
            hists.append(path + new[q:q + 6])
        if not new and any(a[0] == "run" for a in path):
            rest.append(path + [["run", x] for x in idle[:1]])
    c.log("%d histories cover %d classes of idle commands" % (len(hists), len(seen)))
    progs = hists + rest[:400 if QUICK else 6000]
    pool = {"good": GOOD, "good2": GOOD2, "bad": BAD, "ugly": UGLY, "bytes": BYTES}
    seeds = [random.Random(r.random()) for _ in progs]
    with ThreadPoolExecutor(CPUS) as ex:
        ss = list(ex.map(lambda k: replay(c, exe, fake, "h%d" % k, progs[k], seeds[k], pool), range(len(progs))))
    recs = judge_cli(c, ss, "histories")
    c.sample({"command": recs[0]["cmd"], "code": recs[0]["code"], "pre": recs[0]["pre"], "post": recs[0]["post"]})
    c.add(histories=len(progs), runs=len(recs), succeeded=sum(x["code"] == 0 for x in recs))
    # projects of every kind, and bytes of every kind
    wild = projgen.wild(QUICK, r, 200 if QUICK else 2000)
    ns = projgen.namespaces(True, r)
    base = [p.files[0][1] for p in r.sample(wild, 100)]
    pjs = r.sample(wild, 120 if QUICK else 1500) + r.sample(ns, 80 if QUICK else 500) + projgen.mutants(QUICK, r, base, 150 if QUICK else 1500)
    pjs += [one(x) for x in GOOD + BAD + UGLY + BYTES]
    for _ in range(100 if QUICK else 1500):
        b = bytearray(bytes(r.choice(base)))
        for _ in range(r.randint(1, 6)):
            b[r.randrange(len(b) or 1):r.randrange(len(b) + 1)] = bytes(r.choice([r.randrange(256), 0, 10, 34, 39, 92, 123, 195, 226, 240]) for _ in range(r.randint(0, 3)))
            if not b:
                b = bytearray(b"x")
        pjs.append(one(bytes(b)))
    for n in (10, 60):
        pjs += [one(x) for _, x in deep(n)]
    seeds = [random.Random(r.random()) for _ in pjs]
    with ThreadPoolExecutor(CPUS) as ex:
        ss = list(ex.map(lambda k: sweep(c, exe, fake, "p%d" % k, pjs[k], seeds[k]), range(len(pjs))))
    # very large inputs and outputs that cannot be written completely
    big = [(n, what, t) for n in ((1000, 100000) if QUICK else (1000, 3000, 100000)) for what, t in deep(n) if n < 100000 or what in DEEPEST]
    big += [(10000, what, t) for what, t in deep(10000) if what == "parts of a namespace"]

    def large(k):
        n, what, t = big[k]
        s = Session(c, exe, fake, "b%d" % k)
        s.put("a.fbs", t.encode())
        for op, out in (("check", ""), ("format", ""), ("dot", "out.dot"), ("rust", "out.rs")):
            s.run(op, ["a.fbs"], out, free=True, tag="%d %s:" % (n, what))
        s.close()
        return s

    def small(k):
        def limit():
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (100, 100))
        s = Session(c, exe, fake, "l%d" % k)
        s.put("a.fbs", GOOD[1].encode())
        s.put("out", b"old content\n")
        s.run(["rust", "dot"][k], ["a.fbs"], "out", limit=limit, free=True, tag="disk full:")
        s.close()
        return s
    with ThreadPoolExecutor(CPUS) as ex:
        extra = list(ex.map(large, range(len(big)))) + [small(0), small(1)]
    c.add(large=len(big))
    recs = judge_cli(c, ss + extra, "projects")
    c.add(projects=len(pjs), runs=len(recs), succeeded=sum(x["code"] == 0 for x in recs))


main("C17", "model_checking", run)
