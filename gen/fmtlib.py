"""Formatting schema texts with planus and recording it for spec/Format.tla."""
from projlib import *


def judge_format(c, projects, name, lenient=True, timeout=1500):
    """The first file of each project is formatted; the rest are there for translating it."""
    def fj(p, b, **kw):
        return dict({"op": "format", "files": [[p.files[0][0], b]], "main": [p.files[0][0]]}, **kw)

    def tj(p, b):
        return {"op": "translate", "files": [[p.files[0][0], b]] + [[n, x] for n, x in p.files[1:]], "main": [p.files[m][0] for m in p.main], "dump": True}

    one_ = run_sch(c, [fj(p, p.files[0][1]) for p in projects], name + "_a")
    ok = [q for q, r in enumerate(one_) if r["ok"]]
    two = dict(zip(ok, run_sch(c, [fj(projects[q], one_[q]["text"]) for q in ok], name + "_b")))
    ta = dict(zip(ok, run_sch(c, [tj(projects[q], projects[q].files[0][1]) for q in ok], name + "_ta")))
    tb = dict(zip(ok, run_sch(c, [tj(projects[q], one_[q]["text"]) for q in ok], name + "_tb")))
    le = run_sch(c, [fj(p, p.files[0][1], lenient=True) for p in projects], name + "_l") if lenient else None
    recs, shown = [], {}
    acc = 0
    for q, p in enumerate(projects):
        r, s = one_[q], two.get(q, {"ok": False, "panic": ""})
        l = le[q] if lenient else {"ok": False, "panic": ""}
        x, y = ta.get(q), tb.get(q)
        pan = r["panic"] or s["panic"] or l["panic"] or (x and x["panic"]) or (y and y["panic"]) or ""
        rec = {"b": p.files[0][1], "ok": r["ok"], "panic": pan, "out": r.get("text", []), "ok2": s["ok"], "out2": s.get("text", []),
               "len": lenient, "lok": l["ok"], "lout": l.get("text", []), "lerr": l.get("errors", 0),
               "same": "rejected" if not (x and x["ok"]) else "yes" if y["ok"] and norm(x["dump"]) == norm(y["dump"]) else "no"}
        acc += rec["same"] != "rejected"
        recs.append(rec)
        shown[id(rec)] = p
    c.log("%d texts, %d formatted, %d of them accepted" % (len(recs), len(ok), acc))
    c.add(texts=len(recs), formatted=len(ok), translated=acc)
    if ok:
        c.sample({"schema": projects[ok[0]].show()[:400], "formatted": bytes(one_[ok[0]]["text"]).decode("utf-8", "replace")[:400]})
    c.validate("Format", recs, name=name, timeout=timeout,
               describe=lambda r: repr(bytes(r["b"]).decode("utf-8", "replace")[:400]) + " -> " + repr(bytes(r["out"]).decode("utf-8", "replace")[:400]))


def norm(d):
    """doc lines modulo the carriage return of a CR LF line"""
    if isinstance(d, dict):
        return {k: [x[:-1] if x and x[-1] == 13 else x for x in v] if k == "doc" else norm(v) for k, v in d.items()}
    if isinstance(d, list):
        return [norm(x) for x in d]
    return d
