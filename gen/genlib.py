"""Generated Rust code: the compiler's verdict on it and what it declares."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import *


def deps(c):
    """Builds harness/inv (with the runtime library as a dependency) and returns (inv, rustc arguments)."""
    if hasattr(c, "_deps"):
        return c._deps
    e = cargo_env()
    p = subprocess.run(["cargo", "build", "--offline", "--manifest-path", os.path.join(HARNESS, "inv", "Cargo.toml"), "--message-format=json"],
                       env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    if p.returncode != 0:
        raise ToolError("cargo build of harness inv failed:\n" + p.stderr[-6000:])
    ext = {}
    for l in p.stdout.split("\n"):
        if '"compiler-artifact"' in l:
            m = json.loads(l)
            for f in m["filenames"]:
                if f.endswith(".rlib"):
                    ext[m["target"]["name"]] = f
    args = ["--edition=2021", "--crate-type=lib", "--emit=metadata", "-Awarnings",
            "-Ldependency=" + os.path.join(e["CARGO_TARGET_DIR"], "debug", "deps"),
            "--extern=planus=" + ext["planus"], "--extern=serde=" + ext["serde"]]
    c._deps = os.path.join(e["CARGO_TARGET_DIR"], "debug", "inv"), args
    return c._deps


def rustc(c, texts, name, group=8):
    """The compiler's verdict on each text: "" or its first errors."""
    args = deps(c)[1]
    d = os.path.join(c.dir, name)
    os.makedirs(d, exist_ok=True)
    res = [None] * len(texts)

    def go(ks):
        for k in ks:
            with open(os.path.join(d, "m%d.rs" % k), "wb") as f:
                f.write(texts[k])
        top = os.path.join(d, "top%d.rs" % ks[0])
        with open(top, "w") as f:
            for k in ks:
                f.write('#[path = "m%d.rs"] pub mod m%d;\n' % (k, k))
        p = subprocess.run(["rustc"] + args + ["-o", top + ".rmeta", top], env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", timeout=600)
        for x in [top, top + ".rmeta"] + [os.path.join(d, "m%d.rs" % k) for k in ks]:
            if os.path.exists(x):
                os.remove(x)
        if p.returncode == 0:
            for k in ks:
                res[k] = ""
        elif len(ks) > 1:
            for h in (ks[:len(ks) // 2], ks[len(ks) // 2:]):
                go(h)
        else:
            m = re.findall(r"^(error[^\n]*)\n(?:\s*-->[^\n]*\n)?((?:[^\n]+\n){0,4})", p.stderr, re.M)
            res[ks[0]] = " ; ".join(a for a, _ in m[:3])[:400] or p.stderr[-400:]

    ks = list(range(len(texts)))
    with ThreadPoolExecutor(CPUS) as ex:
        list(ex.map(go, [ks[k:k + group] for k in range(0, len(ks), group)]))
    return res


def inventory(c, texts, name):
    exe = deps(c)[0]
    a, b = (os.path.join(c.dir, name + x) for x in (".in", ".out"))
    with open(a, "w") as f:
        for t in texts:
            f.write(json.dumps({"text": list(t)}) + "\n")
    c.run([exe, a, b], timeout=600)
    return [json.loads(l) for l in open(b)]


def users(items, top):
    """Code that uses what a text declares, through the names its users have: every owned
    type taken apart, built again, written and read."""
    out = ["fn need<T>(_: &T) {}"]
    impls, refs = {}, {}
    for x in items:
        if x["k"] == "impl" and x["tr"] in ("TryFrom", "From") and len(x["of"]) == 1:
            refs.setdefault((tuple(x["m"]), x["n"]), x["of"][0])
        if x["k"] == "impl" and x["tr"] == "":
            for f in x["f"]:
                impls.setdefault((tuple(x["m"]), x["n"]), {}).setdefault(f["n"], f)
    n = 0
    for x in items:
        if x["k"] not in ("struct", "enum") or x["g"] or not x["m"]:
            continue
        path = "::".join([top] + x["m"][1:] + [x["n"]])
        fns = impls.get((tuple(x["m"]), x["n"]), {})
        n += 1
        if x["k"] == "enum" and x["v"] and all(not v["t"] for v in x["v"]):
            out.append("pub fn u%d(x: %s) -> usize { match x { %s } }" % (n, path, " ".join("%s::%s => %d," % (path, v["n"], k) for k, v in enumerate(x["v"]))))
        elif x["k"] == "enum" and "builder" in fns:
            out.append("pub fn u%d(x: &%s, b: &mut planus::Builder) -> planus::UnionOffset<%s> { planus::WriteAsUnion::prepare(x, b) }" % (n, path, path))
            bl = next((f for f in fns.values() if f["n"] == "builder"), None)
            bt = bl["t"][2][-1] if bl["t"][0] == "path" else None
            setters = [f for (m, q), fs in impls.items() if m == tuple(x["m"]) and q == bt for f in fs.values() if f["n"] != "finish"]
            # the builder has one function per variant, in order
            if len(setters) == len(x["v"]):
                for k, (v, f) in enumerate(zip(x["v"], setters)):
                    out.append("pub fn u%dv%d(x: &%s, b: &mut planus::Builder) -> Option<planus::UnionOffset<%s>> { if let %s::%s(v) = x { Some(%s::builder().%s(v).finish(b)) } else { None } }"
                               % (n, k, path, path, path, v["n"], path, f["n"]))
        elif x["k"] == "struct" and "builder" in fns and "create" in fns and all(f["n"] for f in x["f"]):
            fs = [f["n"] for f in x["f"]]
            out.append("pub fn u%d(x: &%s, b: &mut planus::Builder) -> planus::Offset<%s> { let o = %s::builder()%s.finish(b); let p: planus::Offset<%s> = %s::create(b%s); need(&p); o }"
                       % (n, path, path, path, "".join(".%s(&x.%s)" % (f, f) for f in fs), path, path, "".join(", &x.%s" % f for f in fs)))
            rd = refs.get((tuple(x["m"]), x["n"]))
            if rd:
                rp = "::".join([top] + x["m"][1:] + [rd])
                out.append("pub fn r%d(x: %s<'_>) -> planus::Result<%s> { %s std::convert::TryInto::try_into(x) }" % (n, rp, path, "".join("need(&%s::%s(&x)?); " % (rp, f) for f in fs)))
                out.append("pub fn s%d(b: &[u8]) -> planus::Result<%s<'_>> { planus::ReadAsRoot::read_as_root(b) }" % (n, rp))
        elif x["k"] == "struct" and x["f"] and all(f["n"] for f in x["f"]):
            fs = [f["n"] for f in x["f"]]
            out.append("pub fn u%d(x: &%s, b: &mut planus::Builder) -> planus::Offset<%s> { let %s { %s } = *x; let y = %s { %s }; planus::WriteAsOffset::prepare(&y, b) }"
                       % (n, path, path, path, ", ".join("%s: v%d" % (f, k) for k, f in enumerate(fs)), path, ", ".join("%s: v%d" % (f, k) for k, f in enumerate(fs))))
            rd = refs.get((tuple(x["m"]), x["n"]))
            if rd:
                rp = "::".join([top] + x["m"][1:] + [rd])
                out.append("pub fn r%d(x: %s<'_>) { %s let _ = ::std::format!(\"{:?}\", x); }" % (n, rp, "".join("need(&%s::%s(&x)); " % (rp, f) for f in fs)))
    return "\n".join(out) + "\n"


def lst(t):
    return t.encode() if isinstance(t, str) else bytes(t)


def judge(c, projects, name="gen", compile=True, module="GenerateJudge", group=8):
    """compile: True, or the set of project numbers whose text is compiled"""
    from projlib import run_sch, job, B
    jobs = [job(p, rust=True, dump=False) for p in projects]
    a, b = run_sch(c, jobs, name + "a"), run_sch(c, jobs, name + "b")
    ok = [k for k in range(len(projects)) if a[k]["ok"] and not isinstance(a[k]["rust"], dict)]
    text = {k: lst(a[k]["rust"]) for k in ok}
    inv = dict(zip(ok, inventory(c, [text[k] for k in ok], name)))
    todo = [k for k in ok if inv[k]["ok"] and (compile is True or k in compile)]
    verdict = dict(zip(todo, rustc(c, [text[k] + b"\nmod users_of_it {\n" + users(inv[k]["items"], "super").encode() + b"}\n" for k in todo], name, group)))
    recs = []
    for k, p in enumerate(projects):
        o = {"ok": a[k]["ok"], "panic": a[k]["panic"] or b[k]["panic"], "gen": "", "same": True, "parse": "", "rustc": "-", "items": []}
        if a[k]["ok"]:
            if isinstance(a[k]["rust"], dict):
                o["gen"] = a[k]["rust"]["err"][:300] or "?"
            else:
                o["same"] = b[k]["ok"] and b[k].get("rust") == a[k]["rust"]
                o["parse"] = "" if inv[k]["ok"] else inv[k]["why"] or "?"
                o["items"] = inv[k]["items"]
                o["rustc"] = verdict.get(k, "-")
        recs.append({"files": [{"name": B(n), "b": t} for n, t in p.files], "main": [m + 1 for m in p.main], "obs": o})
    c.log("%d projects, %d accepted, %d compiled" % (len(recs), len(ok), len(todo)))
    c.add(projects=len(recs), accepted=len(ok), compiled=len(todo))
    if projects:
        c.sample({"schema": projects[0].show()[:600]})
    shown = {id(r): p for r, p in zip(recs, projects)}
    c.validate(module, recs, name=name, describe=lambda r: repr(shown[id(r)].show()[:400]))
    return recs
