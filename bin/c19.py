#!/usr/bin/env python3
"""C19: the inspector's views stay consistent and it never panics."""
import random
from wirelib_boot import *
from sesslib import *


def sizes(r, n):
    """terminal sizes: all small ones, then a grid"""
    out = [["draw", w, h] for w in range(0, 64 if not QUICK else 20) for h in range(0, 14)] + \
          [["draw", w, h] for w in range(20, 140, 7 if QUICK else 1) for h in range(0, 40, 3 if QUICK else 1)]
    return r.sample(out, min(n, len(out)))


def run(c):
    r = random.Random(SEED * 7919 + 19)
    ss, sp, bufs = corpus(c, r, 120 if QUICK else 600, 240)
    probe = run_insp(c, ss, [{"op": "keys", "s": s, "ns": ss[s - 1].name, "j": ss[s - 1].decls[j - 1]["n"], "b": b, "keys": []}
                             for s, w, j, b in bufs], "probe")
    keep = []
    for x, y in zip(bufs, probe):
        if y["steps"] and all(l["tx"].isascii() for o in y["steps"][0]["objs"] for l in o["lines"]):
            keep.append((x, data_of(y["steps"][0], x[3])))
        elif not y["steps"]:
            c.violation("the inspector does not start: " + y["panic"], {"buffer": x[3], "table": x[2], "schema": x[0]})
    datas = [x[1] for x in keep]
    dp = os.path.join(c.dir, "data.json")
    json.dump(datas, open(dp, "w"))
    # the specification on the smallest buffers
    def weight(k):
        d = datas[k]
        return min(2, sum(l["to"] != 0 for o in d["objs"] for l in o["lines"])) + min(2, max(map(len, d["ints"]))) + min(3, len(d["objs"]))
    small = sorted((k for k in range(len(datas)) if len(datas[k]["b"]) <= 60), key=lambda k: (-weight(k), len(datas[k]["b"])))[:4 if QUICK else 8]
    mp = os.path.join(c.dir, "small.json")
    json.dump([datas[k] for k in small], open(mp, "w"))
    t = c.tlc("InspectorModel", env={"DATA": mp}, consts={"Depth": 4 if QUICK else 6, "MaxStack": 2}, constraints=("Bound",), view="Seen",
              invariants=("Consistent", "Back", "Dialogs", "History", "Jump", "Export"))
    jobs = []
    draw = {"draw%d" % g: ["draw", 6 + 25 * g + 2, 24] for g in range(3)}
    progs = [json.loads(m.replace('\\"', '"')) for m in re.findall(r'^"?PROG (\[.*\])"?$', t.text, re.M)]
    c.log("%d states of the specification to replay" % len(progs))
    r.shuffle(progs)
    for d, path in progs[:6000 if QUICK else 40000]:
        jobs.append((small[d - 1] + 1, [draw.get(k, k) for k in path] + [r.choice(KEYS)]))
    c.add(model_behaviours=len(progs))
    # long sessions, and every terminal size
    for k in range(len(datas)):
        for _ in range(4 if QUICK else 20):
            jobs.append((k + 1, walk(r, 150, len(datas[k]["b"]))))
        pre = r.choice([[], ["tab"], ["g"], ["g", "1", "2"], ["h"], ["?"], ["i"], ["c", "i", "down"], ["g", "0", "enter", "down", "down", "enter", "h"], ["end"], ["down"] * 9])
        jobs.append((k + 1, pre + sizes(r, 40 if QUICK else 200)))
    outs = run_insp(c, ss, [{"op": "keys", "s": keep[n - 1][0][0], "ns": ss[keep[n - 1][0][0] - 1].name,
                             "j": ss[keep[n - 1][0][0] - 1].decls[keep[n - 1][0][2] - 1]["n"], "b": datas[n - 1]["b"], "keys": ks}
                            for n, ks in jobs], "keys")
    recs = records(c, datas, jobs, outs)
    c.sample(next(x for x in recs if x["kind"] == "key"))
    for k in range(0, len(recs), 20000):
        c.validate("InspectorJudge", recs[k:k + 20000], env={"DATA": dp}, name="k%d" % k,
                   describe=lambda x: "%s of %d bytes" % (keep[x["d"] - 1][0][2], len(datas[x["d"] - 1]["b"])))
    c.add(buffers=len(datas), sessions=len(jobs), keys=sum(len(x["steps"]) - 1 for x in outs), renderings=sum(x["kind"] == "draw" for x in recs))
    c.assumptions += ["which of several interpretations of a byte is selected is left free, that it covers the byte is not",
                      "what is drawn inside dialogs is not judged, that drawing them is safe is"]


main("C19", "model_checking", run)
