#!/usr/bin/env python3
"""C23: the options of the command line that forgive mistakes."""
import subprocess
from frontlib import *
from clilib import build_cli

OPTIONS = [(d, m) for d in (False, True) for m in (False, True)]
NAMES = {(d, m): (["--ignore-docstring-errors"] if d else []) + (["--ignore-unknown-metadata"] if m else []) for d, m in OPTIONS}


def run(c):
    def fam(r):
        com = projgen.comments(QUICK, r)
        r.shuffle(com)
        att = projgen.attributes(QUICK, r)
        wild = projgen.wild(QUICK, r, 100 if QUICK else 1500)
        mut = projgen.mutants(QUICK, r, [p.files[0][1] for p in att[:150] + com[:150]], 700 if QUICK else 8000)
        def every(ps, n=4):
            return [p.with_options(d, m) for p in ps for d, m in (OPTIONS if n == 4 else r.sample(OPTIONS, n))]
        return [("comments", every(com[:1100] if QUICK else com[:15000], 2)), ("attributes", every(att)),
                ("wild", every(wild, 2)), ("mutants", every(mut, 2))]
    front(c, fam, 23)
    # the options reach the front end from the command line: the same verdicts from the program
    r = random.Random(SEED * 31 + 23)
    exe = build_cli(c)
    ps = projgen.attributes(True, r)
    ps = r.sample(ps, 60 if QUICK else 600) + r.sample(projgen.comments(True, r), 60 if QUICK else 600)
    ps = [p.with_options(d, m) for p in ps for d, m in OPTIONS]
    dirs = os.path.join(c.dir, "cli")

    def program(k, p):
        d = os.path.join(dirs, str(k))
        os.makedirs(d)
        for n, b in p.files:
            open(os.path.join(d, n), "wb").write(bytes(b))
        o = NAMES[p.opt["docs"], p.opt["meta"]]
        out = []
        for cmd in (["check", p.files[0][0]], ["dot", "-o", "o.dot", p.files[0][0]], ["rust", "--format=false", "-o", "o.rs", p.files[0][0]])[:1 if QUICK and k % 3 else 3]:
            q = subprocess.run([exe] + o + cmd, cwd=d, capture_output=True, timeout=60, stdin=subprocess.DEVNULL)
            out.append({"ok": q.returncode == 0, "panic": "" if q.returncode in (0, 1) else "exit status %d" % q.returncode,
                        "errors": sum(l.startswith(b"error") for l in q.stderr.split(b"\n")), "at": []})
        return out

    with ThreadPoolExecutor(CPUS) as ex:
        res = list(ex.map(program, range(len(ps)), ps))
    recs, shown = [], {}
    for p, os_ in zip(ps, res):
        for o in os_:
            recs.append(record(p, o))
            shown[id(recs[-1])] = p
    c.add(program_runs=len(recs))
    c.validate("OptionsJudge", recs, name="program", timeout=800, describe=lambda x: repr(shown[id(x)].show()[:400]))


main("C23", "model_checking", run)
