"""Random FlatBuffers schemas inside the language planus accepts, their .fbs text, the
JSON form the specification reads, the Rust glue of the conformance harness, and
random values of their types.  Everything here only produces *inputs*; what a schema or
a buffer means is decided by spec/Layout.tla and spec/Wire.tla.

decl: dict k = enum|struct|table|union
  enum:   base, vars=[{n, v: bytes-list or []}]
  struct: fa (force_align or 0), f=[{n, t}]
  table:  f=[{n, t, id (-1: none), o: ""|"req"|"null", d: view or [], dep}]
  union:  v=[{n, t, named}]
type: ["u8"] ... ["bool"] | ["str"] | ["vec", t] | ["ref", idx]  (idx is 1-based)
"""
import random, struct, json

INTS = {"u8": ("ubyte", "uint8", 1, 0), "i8": ("byte", "int8", 1, 1), "u16": ("ushort", "uint16", 2, 0),
        "i16": ("short", "int16", 2, 1), "u32": ("uint", "uint32", 4, 0), "i32": ("int", "int32", 4, 1),
        "u64": ("ulong", "uint64", 8, 0), "i64": ("long", "int64", 8, 1)}
FLOATS = {"f32": ("float", "float32", 4), "f64": ("double", "float64", 8)}
SCALARS = list(INTS) + list(FLOATS) + ["bool"]


def size(t):
    if t in INTS:
        return INTS[t][2]
    if t in FLOATS:
        return FLOATS[t][2]
    return 1


def rng_of(t):
    n = size(t) * 8
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if INTS[t][3] else (0, (1 << n) - 1)


def le(t, v):
    return list((v & ((1 << (8 * size(t))) - 1)).to_bytes(size(t), "little"))


def unle(t, b):
    v = int.from_bytes(bytes(b), "little")
    if INTS[t][3] and v >> (8 * len(b) - 1):
        v -= 1 << (8 * len(b))
    return v


class Schema:
    def __init__(self, name, decls):
        self.name, self.decls = name, decls
        self.order = list(range(len(decls)))
        self.root = next((i for i, d in enumerate(decls) if d["k"] == "table"), 0) + 1

    def d(self, t):
        return self.decls[t[1] - 1]

    def kind(self, t):
        """scalar | str | vec | enum | struct | table | union"""
        if t[0] == "ref":
            return self.d(t)["k"]
        return t[0] if t[0] in ("str", "vec") else "scalar"

    # ---------------------------------------------------------------- enum values
    def enum_vals(self, d):
        out, cur = [], None
        for v in d["vars"]:
            cur = unle(d["base"], v["v"]) if v["v"] else (0 if cur is None else cur + 1)
            out.append(cur)
        return out

    def has_zero(self, d):
        return 0 in self.enum_vals(d)

    # ---------------------------------------------------------------- fbs
    def tname(self, t, alias=0):
        if t[0] == "ref":
            return self.d(t)["n"]
        if t[0] == "str":
            return "string"
        if t[0] == "vec":
            return "[" + self.tname(t[1], alias) + "]"
        if t[0] == "bool":
            return "bool"
        return (INTS.get(t[0]) or FLOATS[t[0]])[alias]

    def fbs(self, ns=None):
        o = ["namespace %s;" % (ns or self.name)]
        for i in self.order:
            d = self.decls[i]
            al = i % 2
            if d["k"] == "enum":
                o.append("enum %s : %s {" % (d["n"], self.tname([d["base"]], al)))
                for v in d["vars"]:
                    o.append("  %s%s," % (v["n"], " = %d" % unle(d["base"], v["v"]) if v["v"] else ""))
            elif d["k"] == "struct":
                o.append("struct %s%s {" % (d["n"], " (force_align: %d)" % d["fa"] if d["fa"] else ""))
                for f in d["f"]:
                    o.append("  %s: %s;" % (f["n"], self.tname(f["t"], al)))
            elif d["k"] == "union":
                o.append("union %s {" % d["n"])
                for v in d["v"]:
                    o.append("  %s%s," % (v["n"] + ": " if v["named"] else "", self.tname(v["t"])))
            else:
                o.append("table %s {" % d["n"])
                for f in d["f"]:
                    m = []
                    if f["id"] >= 0:
                        m.append("id: %d" % f["id"])
                    if f["o"] == "req":
                        m.append("required")
                    if f["dep"]:
                        m.append("deprecated")
                    if f.get("fa"):
                        m.append("force_align: %d" % f["fa"])
                    dv = ""
                    if f["o"] == "null":
                        dv = " = null"
                    elif f["d"]:
                        dv = " = " + self.lit(f["t"], f["d"])
                    o.append("  %s: %s%s%s;" % (f["n"], self.tname(f["t"], al), dv, " (" + ", ".join(m) + ")" if m else ""))
            o.append("}")
        o.append("root_type %s;" % self.decls[self.root - 1]["n"])
        return "\n".join(o) + "\n"

    def lit(self, t, d):
        k = self.kind(t)
        if k == "enum":
            return d[1]
        if k == "str":
            return '"' + bytes(d[1]).decode().replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
        if k == "vec":
            return "[]"
        if t[0] == "bool":
            return "true" if d[1][0] else "false"
        if t[0] in INTS:
            return str(unle(t[0], d[1]))
        return repr(struct.unpack("<f" if t[0] == "f32" else "<d", bytes(d[1]))[0])

    # ---------------------------------------------------------------- json for TLA+
    def tla(self):
        return {"n": self.name, "d": self.decls, "root": self.root, "family": getattr(self, "family", self.name)}

    # ---------------------------------------------------------------- rust
    def rty(self, t, m):
        """owned element type of schema type t, module prefix m"""
        k = self.kind(t)
        if k == "scalar":
            return t[0]
        if k == "str":
            return "String"
        if k == "vec":
            return "Vec<%s>" % self.rty(t[1], m)
        return m + "::" + self.d(t)["n"]

    def fty(self, t, f, m):
        r = self.rty(t, m)
        if self.kind(t) == "table":
            r = "Box<%s>" % r
        return r if self.is_plain(t, f) else "Option<%s>" % r

    def is_plain(self, t, f):
        """owned field type is not an Option"""
        if f["o"] == "req":
            return True
        if f["o"] == "null":
            return False
        return bool(f["d"]) or self.kind(t) in ("scalar", "enum")

    def can_default(self, t, f):
        return f["o"] == "" and self.is_plain(t, f)

    def values_glue(self, m):
        """pub fn values(j, job): what values of declaration j say of each other"""
        o = []
        for i, d in enumerate(self.decls):
            T = m + "::" + d["n"]
            if d["k"] == "enum":
                b = d["base"]
                o.append("""%d => if q["op"] == "enum" {
                    let try_: Vec<Value> = q["n"].as_array().unwrap().iter().map(|n| { let n = %s::from_le_bytes(by(n)); match <%s>::try_from(n) {
                        Ok(x) => json!({"ok": x.vw(c, 9), "err": []}), Err(e) => json!({"ok": ["none"], "err": e.tag.to_le_bytes()}) } }).collect();
                    let all: Vec<Value> = <%s>::ENUM_VALUES.iter().map(|x| sc(&%s::from(*x).to_le_bytes())).collect();
                    json!({"try": try_, "all": all})
                } else { let (a, b) = (<%s>::fv(&q["a"]), <%s>::fv(&q["b"])); json!({"o": probe!(a, b), "c": probe::copies(&a), "r": {}, "rv": []}) }""" % (i + 1, b, T, T, b, T, T))
                continue
            z = [x["n"] for x in self.decls if x.get("helps") == i + 1]
            ref = '"r": {}, "rv": []'
            if z:
                o.append("""%d => if q["op"] == "default" { use rtlib::probe::*; let a = <%s>::fv(&q["a"]); json!({"d": (&W(&a)).p_default().map(|x| x.vw(c, 9))}) } else {
                    use planus::ReadAsRoot;
                    let (a, b) = (<%s>::fv(&q["a"]), <%s>::fv(&q["b"]));
                    let z = %s::%s { v: Some(vec![a.clone(), b.clone()]) };
                    let mut builder = planus::Builder::new();
                    let buf = if q["z"].is_array() { bytes(&q["z"]) } else { builder.finish(&z, None).to_vec() };
                    let v = %s::%sRef::read_as_root(&buf).unwrap().v().unwrap().unwrap();
                    let (x, y) = (v.get(0).unwrap()%s, v.get(1).unwrap()%s);
                    json!({"o": probe!(a, b), "c": probe::copies(&a), "r": probe!(x, y), "rv": [x.vw(c, 60), y.vw(c, 60)]}) }""" % (
                    ((i + 1, T, T, T, m, z[0], m, z[0]) + (("", "") if d["k"] == "struct" else (".unwrap()", ".unwrap()")))))
            else:
                o.append("""%d => { let (a, b) = (<%s>::fv(&q["a"]), <%s>::fv(&q["b"])); json!({"o": probe!(a, b), "c": probe::copies(&a), "r": {}, "rv": []}) }""" % (i + 1, T, T))
        return "pub fn values(j:u64,q:&Value)->Value { let c = &mut Cx::new(false, 4000); match j { %s, _=>panic!() } }" % ",".join(o)

    def glue(self, include, values=False):
        m = "g::" + self.name
        o = ["pub mod %s { use rtlib::*; use serde_json::{json, Value};" % self.name]
        o.append("#[allow(warnings)] pub mod g { %s }" % include)
        w = o.append
        for i, d in enumerate(self.decls):
            T = m + "::" + d["n"]
            if d["k"] == "enum":
                b = d["base"]
                w("impl Vw for %s { fn vw(&self, _c:&mut Cx, _d:u32)->Value { sc(&(*self as %s).to_le_bytes()) } }" % (T, b))
                w("impl Fv for %s { fn fv(v:&Value)->Self { let x=%s::from_le_bytes(by(v)); <%s>::try_from(x).map_err(|_|()).expect(\"enum value\") } }" % (T, b, T))
                w("impl Pre for %s { type Out=Self; fn pre(v:&Value,_b:&mut planus::Builder)->Self { Fv::fv(v) } } prev!(%s,%s);" % (T, T, T))
            elif d["k"] == "struct":
                w("impl Vw for %s { fn vw(&self, c:&mut Cx, d:u32)->Value { c.n(); json!([\"st\",[%s]]) } }" % (
                    T, ",".join("self.%s.vw(c,d)" % f["n"] for f in d["f"])))
                w("impl<'a> Vw for %sRef<'a> { fn vw(&self, c:&mut Cx, d:u32)->Value { c.n(); c.dbg(self); json!([\"st\",[%s]]) } }" % (
                    T, ",".join("self.%s().vw(c,d)" % f["n"] for f in d["f"])))
                w("impl Fv for %s { fn fv(v:&Value)->Self { let f=&v[1]; Self { %s } } }" % (
                    T, ",".join("%s: Fv::fv(&f[%d])" % (f["n"], n) for n, f in enumerate(d["f"]))))
                w("impl Pre for %s { type Out=Self; fn pre(v:&Value,_b:&mut planus::Builder)->Self { Fv::fv(v) } } prev!(%s,%s);" % (T, T, T))
            elif d["k"] == "union":
                rv = [v["n"][0].upper() + v["n"][1:] for v in d["v"]]
                w("impl Vw for %s { fn vw(&self, c:&mut Cx, d:u32)->Value { c.n(); match self { %s } } }" % (
                    T, ",".join("Self::%s(x) => json!([\"un\",%d,x.vw(c,d)])" % (n, k + 1) for k, n in enumerate(rv))))
                w("impl<'a> Vw for %sRef<'a> { fn vw(&self, c:&mut Cx, d:u32)->Value { c.n(); match self { %s } } }" % (
                    T, ",".join("Self::%s(x) => json!([\"un\",%d,x.vw(c,d)])" % (n, k + 1) for k, n in enumerate(rv))))
                w("impl Fv for %s { fn fv(v:&Value)->Self { match v[1].as_u64().unwrap() { %s, _=>panic!() } } }" % (
                    T, ",".join("%d => Self::%s(%s)" % (k + 1, n, "Box::new(Fv::fv(&v[2]))" if self.kind(d["v"][k]["t"]) == "table" else "Fv::fv(&v[2])")
                                for k, n in enumerate(rv))))
                w("impl Pre for %s { type Out=planus::UnionOffset<%s>; fn pre(v:&Value,b:&mut planus::Builder)->Self::Out { match v[1].as_u64().unwrap() { %s, _=>panic!() } } }" % (
                    T, T, ",".join(
                        ("%d => { let x=<%s as Pre>::pre(&v[2],b); %s }" % (
                            k + 1, self.rty(d["v"][k]["t"], m),
                            ("<%s>::create_%s(b, x)" % (T, snake(d["v"][k]["n"]))) if k % 2 == 0 else
                            ("<%s>::builder().%s(x).finish(b)" % (T, snake(d["v"][k]["n"])))))
                        for k, n in enumerate(rv))))
                w("prevu!(%s);" % T)
            else:
                fs = [(n, f) for n, f in enumerate(x for x in d["f"]) if not f["dep"]]
                w("impl Vw for %s { fn vw(&self, c:&mut Cx, d:u32)->Value { c.n(); if d==0 { return json!([\"deep\"]); } json!([\"tab\",%d,[%s]]) } }" % (
                    T, i + 1, ",".join("self.%s.vw(c,d-1)" % f["n"] for n, f in fs)))
                w("impl<'a> Vw for %sRef<'a> { fn vw(&self, c:&mut Cx, d:u32)->Value { c.n(); if d==0 { return json!([\"deep\"]); } c.dbg(self); json!([\"tab\",%d,[%s]]) } }" % (
                    T, i + 1, ",".join("self.%s().vw(c,d-1)" % f["n"] for n, f in fs)))
                w("impl Fv for %s { fn fv(v:&Value)->Self { let f=&v[2]; Self { %s } } }" % (
                    T, ",".join("%s: Fv::fv(&f[%d])" % (f["n"], n2) for n2, (n, f) in enumerate(fs))))
                # "offsets" style: children first, then builder chain
                pre, chain = [], []
                ordered = list(enumerate(fs))
                for n2, (n, f) in ordered:
                    p = "Pf::<%s>::pf(&f[%d],b)" % (self.rty(f["t"], m), n2)
                    if f["o"] == "req" or self.kind(f["t"]) in ("scalar", "enum") and f["o"] != "null":
                        p = "<%s as Pre>::pre(&f[%d],b)" % (self.rty(f["t"], m), n2)
                    else:
                        p = "(if f[%d][0]==\"none\" { None } else { Some(<%s as Pre>::pre(&f[%d],b)) })" % (n2, self.rty(f["t"], m), n2)
                    if f["o"] == "" and f["d"] and self.kind(f["t"]) not in ("scalar", "enum"):
                        # a vector's offset is always written; planus takes no offset for a defaulted string
                        p = "<String as Fv>::fv(&f[%d])" % n2 if f["t"] == ["str"] else "<%s as Pre>::pre(&f[%d],b)" % (self.rty(f["t"], m), n2)
                    pre.append("let x%d = %s;" % (n2, p))
                    chain.append(".%s(x%d)" % (f["n"], n2))
                rev = (i % 2 == 1)
                w("impl Pre for %s { type Out=planus::Offset<%s>; fn pre(v:&Value,b:&mut planus::Builder)->Self::Out { let f=&v[2]; %s <%s>::builder()%s.finish(b) } }" % (
                    T, T, "".join(reversed(pre) if rev else pre), T, "".join(chain)))
                w("prev!(%s, planus::Offset<%s>);" % (T, T))
                # "create" style: owned arguments
                w("impl Create for %s { fn create_(v:&Value,b:&mut planus::Builder)->planus::Offset<Self> { let f=&v[2]; %s <%s>::create(b%s) } " % (
                    T, "".join("let x%d: %s = Fv::fv(&f[%d]);" % (n2, self.fty(f["t"], f, m), n2) for n2, (n, f) in enumerate(fs)),
                    T, "".join(", %sx%d" % ("&" if n2 % 2 else "", n2) for n2, (n, f) in ordered)))
                # builder chain with owned arguments and as_null / as_default wherever allowed
                ch, ch2 = [], []
                for n2, (n, f) in ordered:
                    ch.append(".%s(x%d)" % (f["n"], n2))
                    if f["o"] == "req":
                        ch2.append(".%s(x%d)" % (f["n"], n2))
                    elif self.can_default(f["t"], f):
                        ch2.append(".%s_as_default()" % f["n"])
                    else:
                        ch2.append(".%s_as_null()" % f["n"])
                lets = "".join("let x%d: %s = Fv::fv(&f[%d]);" % (n2, self.fty(f["t"], f, m), n2) for n2, (n, f) in enumerate(fs))
                w(" fn chain_(v:&Value,b:&mut planus::Builder)->planus::Offset<Self> { let f=&v[2]; %s <%s>::builder()%s.finish(b) }" % (lets, T, "".join(ch)))
                w(" fn minimal_(v:&Value,b:&mut planus::Builder)->planus::Offset<Self> { let f=&v[2]; %s let _=&f; <%s>::builder()%s.finish(b) } }" % (
                    "".join("let x%d: %s = Fv::fv(&f[%d]);" % (n2, self.fty(f["t"], f, m), n2) for n2, (n, f) in enumerate(fs) if f["o"] == "req"), T, "".join(ch2)))
        tabs = [(i, d) for i, d in enumerate(self.decls) if d["k"] == "table"]
        w("pub fn read(j:u64,b:&[u8],iter:bool,dd:u32,k:usize)->Value { match j { %s, _=>panic!() } }" % ",".join(
            "%d => read_root::<%s::%sRef,%s::%s>(b,iter,dd,k)" % (i + 1, m, d["n"], m, d["n"]) for i, d in tabs))
        w("pub fn write(j:u64,v:&Value,how:&str,b:&mut planus::Builder,id:Option<[u8;4]>)->Vec<u8> { match j { %s, _=>panic!() } }" % ",".join(
            "%d => write_root::<%s::%s>(v,how,b,id)" % (i + 1, m, d["n"]) for i, d in tabs))
        w("pub fn owned_default(j:u64)->Value { match j { %s, _=>panic!() } }" % ",".join(
            "%d => %s" % (i + 1, ("%s::%s::default().vw(&mut Cx::new(false,64),8)" % (m, d["n"])) if all(f["o"] != "req" for f in d["f"] if not f["dep"]) else "Value::Null")
            for i, d in tabs))
        if values:
            w(self.values_glue(m))
        o.append("}")
        return "\n".join(o) + "\n"


def with_helpers(S):
    """adds a table holding a vector for every struct and union, through which its views are reached"""
    for i, d in enumerate(list(S.decls)):
        if d["k"] in ("struct", "union"):
            S.decls.append({"k": "table", "n": "Zz%d" % (i + 1), "helps": i + 1,
                            "f": [{"n": "v", "t": ["vec", ["ref", i + 1]], "id": -1, "o": "", "d": [], "dep": False}]})
            S.order.append(len(S.decls) - 1)
    return S


def snake(s):
    return s[0].lower() + s[1:]


# -------------------------------------------------------------------- generation
def rand_scalar_bytes(r, t):
    if t == "bool":
        return [r.randint(0, 1)]
    if t in INTS:
        lo, hi = rng_of(t)
        v = r.choice([0, 1, -1 if lo else 2, lo, hi, r.randint(lo, hi), r.randint(lo, hi), r.randint(max(lo, -9), 9)])
        return le(t, v)
    v = r.choice([0.0, -0.0, 1.0, -1.5, 3.25, 1e10, -2.5e-3, float("inf"), r.uniform(-1e6, 1e6), 0.1])
    return list(struct.pack("<f" if t == "f32" else "<d", v))


FLOAT_LITS = [1.0, 1.5, 3.25, 1e10, 0.1, 2.5e-3, 123456.789, -1.5, -0.5, -1e300, 16777217.0]
STR_LITS = ["", "hi", "x", 'quo"te', "æøå", "line\nfeed", "0123456789"]


def random_schema(r, name, n_enum=3, n_struct=3, n_table=4, n_union=2, ids=0.3, big=False, forced=0.1):
    D = []
    cnt = [0]

    def new(k, **kw):
        d = dict(k=k, **kw)
        D.append(d)
        return len(D)

    enums, structs, tables, unions = [], [], [], []
    for i in range(n_enum):
        base = r.choice(list(INTS))
        lo, hi = rng_of(base)
        vs, used, cur = [], set(), None
        for j in range(r.randint(1, 5)):
            nxt = 0 if cur is None else cur + 1
            if r.random() < 0.5 or nxt in used or nxt > hi:
                v = r.choice([lo, hi, 0, r.randint(lo, hi), r.randint(max(lo, -5), 20)])
                if v in used:
                    continue
                vs.append({"n": "V%d" % j, "v": le(base, v)})
                cur = v
            else:
                vs.append({"n": "V%d" % j, "v": []})
                cur = nxt
            used.add(cur)
        if not vs:
            vs = [{"n": "V0", "v": []}]
        if i == 0 and 0 not in used:
            vs.append({"n": "Zero", "v": le(base, 0)})
        enums.append(new("enum", n="En%d" % i, base=base, vars=vs))
    for i in range(n_struct):
        fs = []
        amax = 1
        for j in range(r.randint(1, 5)):
            c = r.random()
            if c < 0.65 or (not structs and c > 0.8):
                t = [r.choice(SCALARS)]
            elif c < 0.8:
                t = ["ref", r.choice(enums)]
            else:
                t = ["ref", r.choice(structs)]
            fs.append({"n": "f%d" % j, "t": t})
        structs.append(new("struct", n="St%d" % i, fa=0, f=fs))
        al = struct_align(D, structs[-1])
        if r.random() < 0.35:
            D[structs[-1] - 1]["fa"] = max(al, r.choice([1, 2, 4, 8, 16, 16, 32]))
    t0 = len(D) + 1
    tables = list(range(t0, t0 + n_table))
    unions = list(range(t0 + n_table, t0 + n_table + n_union))
    for i in tables:
        new("table", n="Tb%d" % (i - t0), f=[])
    for ui, i in enumerate(unions):
        vs = []
        ts = tables[1:] + structs
        r.shuffle(ts)
        for j in range(r.randint(1, 4)):
            if r.random() < 0.3 or not ts:
                vs.append({"n": "v%d" % j, "t": ["str"], "named": True})
            else:
                t = ts.pop()
                named = r.random() < 0.5
                vs.append({"n": "v%d" % j if named else D[t - 1]["n"], "t": ["ref", t], "named": named})
        new("union", n="Un%d" % ui, v=vs)
    S = Schema(name, D)

    for ti, i in enumerate(tables):
        fs = []
        nf = r.randint(5, 12) if ti == 0 else r.randint(0, 6)
        if big and ti == 0:
            nf = 24
        for j in range(nf):
            f = {"n": "f%d" % j, "id": -1, "o": "", "d": [], "dep": r.random() < 0.07}
            c = r.random()
            if c < 0.3:
                t = [r.choice(SCALARS)]
            elif c < 0.4:
                t = ["ref", r.choice(enums)]
            elif c < 0.5:
                t = ["str"]
            elif c < 0.58:
                t = ["ref", r.choice(structs)]
            elif c < 0.66:
                t = ["ref", r.choice(tables[1:] if len(tables) > 1 else tables)]
            elif c < 0.76 and unions:
                t = ["ref", r.choice(unions)]
            else:
                e = r.choice([[r.choice(SCALARS)], [r.choice(SCALARS)], ["u8"], ["i8"], ["bool"], ["str"], ["str"], ["ref", r.choice(enums)],
                              ["ref", r.choice(structs)], ["ref", r.choice(structs)],
                              ["ref", r.choice(tables[1:] if len(tables) > 1 else tables)],
                              ["ref", r.choice(unions)] if unions else ["str"]])
                t = ["vec", e]
            f["t"] = t
            k = S.kind(t)
            if k == "scalar":
                q = r.random()
                if q < 0.25:
                    f["o"] = "null"
                elif q < 0.6:
                    if t[0] in FLOATS:
                        v = r.choice(FLOAT_LITS)
                        try:
                            b = struct.pack("<f" if t[0] == "f32" else "<d", v)
                        except OverflowError:
                            b = struct.pack("<f", 2.5)
                        f["d"] = ["sc", list(b)]
                    else:
                        f["d"] = ["sc", rand_scalar_bytes(r, t[0])]
            elif k == "enum":
                e = S.d(t)
                if r.random() < 0.3:
                    f["o"] = "null"
                elif not S.has_zero(e) or r.random() < 0.5:
                    f["d"] = ["ev", r.choice(e["vars"])["n"]]
            elif r.random() < 0.25:
                f["o"] = "req"
            elif k == "str" and r.random() < 0.4:
                f["d"] = ["str", list(r.choice(STR_LITS).encode())]
            elif k == "vec" and r.random() < 0.4:
                f["d"] = ["vec", 0, []]
            if f["o"] == "req" and (t == ["ref", i] or ti > 0 and k in ("table", "union")):
                f["o"] = ""
            if f["dep"]:
                f["o"] = "" if f["o"] == "req" else f["o"]
            fs.append(f)
        if r.random() < ids and fs:
            order = list(range(len(fs)))
            r.shuffle(order)
            n = 0
            for q in order:
                if is_union(S, fs[q]["t"]):
                    n += 1
                fs[q]["id"] = n
                n += 1
        force(r, S, fs, forced)
        D[i - 1]["f"] = fs
    r.shuffle(S.order)
    S.root = tables[0]
    return S


def is_union(S, t):
    return S.kind(t) == "union" or (t[0] == "vec" and S.kind(t[1]) == "union")


def natural_align(S, t):
    """alignment of a table field of type t"""
    k = S.kind(t)
    return size(t[0]) if k == "scalar" else \
        struct_align(S.decls, t[1]) if k == "struct" else size(S.d(t)["base"]) if k == "enum" else 4


def force(r, S, fs, p):
    """forces the alignment of some of the table fields fs"""
    for f in fs:
        if r.random() < p:
            f["fa"] = max(natural_align(S, f["t"]), r.choice([1, 2, 4, 8, 8, 16, 32]))


def struct_align(D, i):
    a = D[i - 1]["fa"] or 1
    for f in D[i - 1]["f"]:
        t = f["t"]
        if t[0] == "ref":
            e = D[t[1] - 1]
            a = max(a, struct_align(D, t[1]) if e["k"] == "struct" else size(e["base"]))
        else:
            a = max(a, size(t[0]))
    return a


def rand_value(r, S, t, depth, f=None):
    k = S.kind(t)
    if k == "scalar":
        if f and f["d"] and r.random() < 0.3:
            return f["d"]
        return ["sc", rand_scalar_bytes(r, t[0])]
    if k == "enum":
        e = S.d(t)
        vals = S.enum_vals(e)
        if f and f["d"] and r.random() < 0.3:
            n = [v["n"] for v in e["vars"]].index(f["d"][1])
            return ["sc", le(e["base"], vals[n])]
        return ["sc", le(e["base"], r.choice(vals))]
    if k == "str":
        if f and f["d"] and r.random() < 0.4:
            return f["d"]
        s = r.choice(["", "a", "bc", "hello", "\u00e6\u20ac\U0001f600", "x" * r.randint(0, 20), "shared", "with\0nul"])
        return ["str", list(s.encode())]
    if k == "vec":
        n = r.choice([0, 0, 1, 1, 2, 3, 3, 5]) if depth > 0 or S.kind(t[1]) not in ("table", "union") else 0
        if S.kind(t[1]) in ("scalar", "enum") and r.random() < 0.2:
            n = r.randint(4, 17)
        v = [rand_value(r, S, t[1], depth - 1) for _ in range(n)]
        return ["vec", n, v]
    d = S.d(t)
    if k == "struct":
        return ["st", [rand_value(r, S, g["t"], depth) for g in d["f"]]]
    if k == "union":
        q = r.randrange(len(d["v"]))
        if depth <= 0:
            c = [x for x in range(len(d["v"])) if S.kind(d["v"][x]["t"]) != "table"]
            q = r.choice(c) if c else q
        return ["un", q + 1, rand_value(r, S, d["v"][q]["t"], depth - 1)]
    out = []
    for g in d["f"]:
        if g["dep"]:
            continue
        gk = S.kind(g["t"])
        plain = S.is_plain(g["t"], g)
        if g["o"] == "req" or plain:
            out.append(rand_value(r, S, g["t"], depth - 1, g))
        elif r.random() < (0.4 if depth > 0 or gk not in ("table", "union") else 1.0):
            out.append(["none"])
        else:
            out.append(rand_value(r, S, g["t"], depth - 1, g))
    return ["tab", t[1], out]


def full_schema(name):
    """One hand-chosen schema that uses every kind of field."""
    D = []

    def new(k, **kw):
        D.append(dict(k=k, **kw))
        return ["ref", len(D)]

    E = new("enum", n="E", base="i16", vars=[{"n": "A", "v": le("i16", -3)}, {"n": "B", "v": []}, {"n": "C", "v": le("i16", 7)}])
    F = new("enum", n="F", base="u8", vars=[{"n": "X", "v": []}, {"n": "Y", "v": []}, {"n": "Z", "v": []}])
    G = new("enum", n="G", base="u64", vars=[{"n": "X", "v": []}, {"n": "Y", "v": le("u64", 2**64 - 1)}])
    St = new("struct", n="S", fa=0, f=[{"n": "a", "t": ["u8"]}, {"n": "e", "t": E}, {"n": "d", "t": ["f64"]}, {"n": "b", "t": ["bool"]}])
    O = new("struct", n="O", fa=32, f=[{"n": "s", "t": St}, {"n": "c", "t": ["i8"]}])
    P = new("struct", n="P", fa=0, f=[{"n": "x", "t": ["u8"]}, {"n": "y", "t": ["u8"]}, {"n": "z", "t": F}])
    base = len(D)
    groups = [[] for _ in range(5)]
    ref = lambda i: ["ref", base + 1 + i]
    T, L, U, M = ref(0), ref(6), ref(7), ref(8)
    fs = groups[0]

    def f(t, o="", d=None, dep=False):
        fs.append({"n": "f%d" % len(fs), "t": t, "id": -1, "o": o, "d": d or [], "dep": dep})

    for s in SCALARS:
        f([s])
    f(E, d=["ev", "C"]); f(E, "null"); f(F); f(F, d=["ev", "Z"]); f(G)
    fs = groups[1]
    f(["i32"], d=["sc", le("i32", -5)]); f(["i32"], "null"); f(["u64"], d=["sc", le("u64", 2**64 - 1)])
    f(["i64"], d=["sc", le("i64", -(2**63))]); f(["bool"], d=["sc", [1]]); f(["bool"], "null")
    f(["f64"], d=["sc", list(struct.pack("<d", 1.5))]); f(["f32"], d=["sc", list(struct.pack("<f", 0.1))])
    f(["f32"], d=["sc", list(struct.pack("<f", -2.5))]); f(["f64"], "null")
    f(["str"]); f(["str"], "req"); f(["str"], d=["str", list("hi".encode())])
    fs = groups[2]
    f(St); f(O, "req"); f(P)
    f(["i16"], dep=True)
    f(L); f(L, "req"); f(M)
    f(U); f(U, "req")
    fs = groups[3]
    for e in [["i32"], ["u8"], ["i8"], ["bool"], ["f64"], ["u64"], E, F, St, O, P, ["str"], L, U]:
        f(["vec", e])
    fs = groups[4]
    f(["vec", ["i32"]], d=["vec", 0, []]); f(["vec", ["u8"]], d=["vec", 0, []]); f(["vec", ["str"]], d=["vec", 0, []])
    f(["vec", U], d=["vec", 0, []]); f(["vec", U], "req"); f(["vec", ["i32"]], "req"); f(["vec", St], d=["vec", 0, []])
    f(["vec", ["i16"]], "req"); f(["vec", ["str"]], "req"); f(["vec", L], d=["vec", 0, []])
    root = []
    fs = root
    for i in range(5):
        f(ref(1 + i), "req" if i % 2 else "")
    new("table", n="T", f=root)
    for i in range(5):
        new("table", n="A%d" % i, f=groups[i])
    new("table", n="L", f=[{"n": "v", "t": ["i32"], "id": -1, "o": "", "d": [], "dep": False}, {"n": "w", "t": ["vec", L], "id": -1, "o": "", "d": [], "dep": False}])
    new("union", n="U", v=[{"n": "L", "t": L, "named": False}, {"n": "s", "t": ["str"], "named": True}, {"n": "st", "t": St, "named": True}, {"n": "O", "t": O, "named": False}])
    new("table", n="M", f=[])
    s = Schema(name, D)
    s.root = T[1]
    return s


def small_schema(name):
    """Few fields, so that mutation sweeps over whole buffers stay cheap."""
    D = [
        dict(k="enum", n="E", base="i8", vars=[{"n": "A", "v": []}, {"n": "B", "v": []}, {"n": "C", "v": le("i8", -2)}]),
        dict(k="struct", n="S", fa=0, f=[{"n": "a", "t": ["u8"]}, {"n": "e", "t": ["ref", 1]}, {"n": "w", "t": ["u16"]}]),
        dict(k="table", n="T", f=[]),
        dict(k="table", n="L", f=[{"n": "v", "t": ["u16"], "id": -1, "o": "", "d": [], "dep": False}, {"n": "n", "t": ["ref", 4], "id": -1, "o": "", "d": [], "dep": False}]),
        dict(k="union", n="U", v=[{"n": "L", "t": ["ref", 4], "named": False}, {"n": "s", "t": ["str"], "named": True}, {"n": "st", "t": ["ref", 2], "named": True}]),
    ]
    names = [(["u8"], ""), (["ref", 1], ""), (["str"], ""), (["ref", 2], ""), (["ref", 4], ""), (["ref", 5], ""),
             (["vec", ["u16"]], ""), (["vec", ["ref", 1]], ""), (["vec", ["str"]], ""), (["vec", ["ref", 2]], ""),
             (["vec", ["ref", 4]], ""), (["vec", ["ref", 5]], ""), (["vec", ["u8"]], ""), (["bool"], "null")]
    D[2]["f"] = [{"n": "f%d" % i, "t": t, "id": -1, "o": o, "d": [], "dep": False} for i, (t, o) in enumerate(names)]
    s = Schema(name, D)
    s.root = 3
    return s


def evolve(r, S, name):
    """a later version of S: appended fields, deprecations, appended variants, new declarations"""
    import copy
    D = copy.deepcopy(S.decls)
    N = Schema(name, D)
    N.order = list(S.order)
    N.root = S.root
    N.family = getattr(S, "family", S.name)
    old = len(D)
    tag = name[-1]
    new = []
    if r.random() < 0.7:
        D.append(dict(k="table", n="Nt" + tag, f=[{"n": "a", "t": ["u16"], "id": -1, "o": "", "d": [], "dep": False},
                                                    {"n": "b", "t": ["str"], "id": -1, "o": "", "d": [], "dep": False}]))
        new.append(["ref", len(D)])
    if r.random() < 0.4:
        D.append(dict(k="enum", n="Ne" + tag, base=r.choice(["u8", "i32"]), vars=[{"n": "A", "v": []}, {"n": "B", "v": []}]))
        new.append(["ref", len(D)])
    if r.random() < 0.4:
        D.append(dict(k="struct", n="Ns" + tag, fa=r.choice([0, 16]), f=[{"n": "x", "t": ["u64"]}, {"n": "y", "t": ["i8"]}]))
        new.append(["ref", len(D)])
    for x in range(old, len(D)):
        N.order.insert(r.randrange(len(N.order) + 1), x)
    for i, d in enumerate(D[:old]):
        if d["k"] == "enum" and r.random() < 0.7:
            vals = set(N.enum_vals(d))
            lo, hi = rng_of(d["base"])
            for q in range(r.randint(1, 3)):
                last = N.enum_vals(d)[-1]
                if last + 1 <= hi and last + 1 not in vals and r.random() < .6:
                    d["vars"].append({"n": "W%s_%d" % (tag, q), "v": []})
                    vals.add(last + 1)
                else:
                    v = r.randint(lo, hi)
                    if v not in vals:
                        d["vars"].append({"n": "W%s_%d" % (tag, q), "v": le(d["base"], v)})
                        vals.add(v)
        elif d["k"] == "union" and r.random() < 0.7:
            for q in range(r.randint(1, 2)):
                c = [["str"]] + [["ref", x + 1] for x, y in enumerate(D) if y["k"] in ("struct", "table") and x + 1 != S.root]
                d["v"].append({"n": "w%sx%d" % (tag, q), "t": r.choice(c), "named": True})
        elif d["k"] == "table":
            for f in d["f"]:
                if not f["dep"] and r.random() < 0.1 and f["o"] != "req":
                    f["dep"] = True
            ids = bool(d["f"]) and d["f"][0]["id"] >= 0
            nxt = max([f["id"] for f in d["f"]], default=-1) + 1
            for q in range(r.choice([0, 1, 2, 3])):
                c = [[r.choice(SCALARS)], [r.choice(SCALARS)], ["str"], ["vec", ["u8"]], ["vec", ["str"]]] + new * 2
                c += [["vec", x] for x in new]
                c += [["ref", x + 1] for x, y in enumerate(D[:old]) if y["k"] in ("union", "struct")]
                c += [["vec", ["ref", x + 1]] for x, y in enumerate(D[:old]) if y["k"] == "union"]
                t = r.choice(c)
                f = {"n": "g%s_%d" % (tag, q), "t": t, "id": -1, "o": "", "d": [], "dep": False}
                k = N.kind(t)
                if k == "scalar" and t[0] in INTS and r.random() < .4:
                    f["d"] = ["sc", rand_scalar_bytes(r, t[0])]
                elif k in ("scalar", "enum") and r.random() < .3:
                    f["o"] = "null"
                if ids:
                    nxt += 1 if is_union(N, t) else 0
                    f["id"] = nxt
                    nxt += 1
                    d["f"].insert(r.randrange(len(d["f"]) + 1), f)
                else:
                    d["f"].append(f)
    return N


# -------------------------------------------------------------------- schemas for one property each
def _new(D):
    def new(k, **kw):
        D.append(dict(k=k, **kw))
        return ["ref", len(D)]
    return new


def _f(n, t, o="", d=None, dep=False, id=-1):
    return {"n": n, "t": t, "id": id, "o": o, "d": d or [], "dep": dep}


def ids_schema(r, name):
    """tables whose ids are far from their declaration order; many unions"""
    D = []
    new = _new(D)
    S = new("struct", n="St", fa=0, f=[{"n": "a", "t": ["u8"]}, {"n": "b", "t": ["u32"]}])
    L = new("table", n="L", f=[_f("v", ["i16"])])
    U = new("union", n="U", v=[{"n": "L", "t": L, "named": False}, {"n": "s", "t": ["str"], "named": True}, {"n": "St", "t": S, "named": False}])
    pool = [["u8"], ["bool"], ["u16"], ["i32"], ["f64"], ["str"], S, L, U, U, ["vec", U], ["vec", U], ["vec", ["u8"]], ["vec", S], ["vec", ["str"]], ["vec", L]]
    for k in range(5):
        fs = []
        for q in range(r.randint(3, 11)):
            t = r.choice(pool)
            fs.append(_f("f%d" % q, t, dep=r.random() < .12))
        if k < 4:
            order = list(range(len(fs)))
            r.shuffle(order)
            n = 0
            for q in order:
                two = t2 = fs[q]["t"] in (U, ["vec", U])
                n += 1 if two else 0
                fs[q]["id"] = n
                n += 1
        new("table", n="T%s" % "abcde"[k], f=fs)
    s = Schema(name, D)
    s.root = len(D)
    return s


def layout_schema(r, name):
    """structs of every shape, inline in a table, nested and in vectors"""
    D = []
    new = _new(D)
    es = [new("enum", n="E%d" % q, base=b, vars=[{"n": "A", "v": []}, {"n": "B", "v": []}]) for q, b in enumerate(["u8", "i16", "u32", "i64"])]
    st = []
    for q in range(9):
        fs = []
        for z in range(r.randint(1, 6)):
            t = r.choice(st) if st and r.random() < .3 else r.choice(es) if r.random() < .2 else [r.choice(SCALARS)]
            fs.append({"n": "f%d" % z, "t": t})
        x = new("struct", n="S%d" % q, fa=0, f=fs)
        if r.random() < .4:
            D[-1]["fa"] = max(struct_align(D, x[1]), r.choice([1, 2, 4, 8, 16, 32, 64]))
        st.append(x)
    half = len(st) // 2
    for k, part in enumerate([st[:half], st[half:]]):
        fs = [_f("a%d" % q, t) for q, t in enumerate(part)] + [_f("v%d" % q, ["vec", t]) for q, t in enumerate(part)] + [_f("b", ["u8"]), _f("r", part[0], "req")]
        r.shuffle(fs)
        new("table", n="T%s" % "ab"[k], f=fs)
    u = new("union", n="U", v=[{"n": "s%d" % q, "t": t, "named": True} for q, t in enumerate(r.sample(st, 4))])
    new("table", n="Tu", f=[_f("u", u), _f("w", ["vec", u]), _f("c", ["u8"])])
    s = Schema(name, D)
    for d in D:
        if d["k"] == "table":
            force(r, s, d["f"], .25)
    s.root = len(D)
    return s


def tags_schema(r, name):
    """enums of every integer type with values at its limits; unions of every kind of variant"""
    D = []
    new = _new(D)
    es = []
    for b in INTS:
        lo, hi = rng_of(b)
        for q in range(2):
            vs, used, cur = [], set(), -1
            for z in range(r.randint(1, 7)):
                c = r.choice([None, None, lo, hi, hi - 1, 0, r.randint(lo, hi), r.randint(max(lo, -3), 9)])
                v = cur + 1 if c is None else c
                if v > hi or v in used:
                    continue
                vs.append({"n": "V%d" % z, "v": [] if c is None else le(b, c)})
                used.add(v)
                cur = v
            vs = vs or [{"n": "V0", "v": []}]
            es.append(new("enum", n="E%s%d" % (b, q), base=b, vars=vs))
    S0 = Schema(name, D)
    L = new("table", n="L", f=[_f("x", ["u8"])])
    M = new("table", n="M", f=[])
    P = new("struct", n="P", fa=0, f=[{"n": "a", "t": es[0]}, {"n": "b", "t": es[5]}])
    u1 = new("union", n="Ua", v=[{"n": "L", "t": L, "named": False}, {"n": "M", "t": M, "named": False}, {"n": "P", "t": P, "named": False}])
    u2 = new("union", n="Ub", v=[{"n": "v%d" % q, "t": r.choice([L, M, P, ["str"]]), "named": True} for q in range(9)])
    u3 = new("union", n="Uc", v=[{"n": "s", "t": ["str"], "named": True}, {"n": "M", "t": M, "named": False}, {"n": "t", "t": ["str"], "named": True}])
    for k in range(2):
        fs = []
        for q, e in enumerate(es[k * 8:k * 8 + 8]):
            z = S0.has_zero(S0.d(e))
            if z:
                fs.append(_f("e%d" % q, e))
            fs.append(_f("n%d" % q, e, "null"))
            fs.append(_f("d%d" % q, e, d=["ev", r.choice(S0.d(e)["vars"])["n"]]))
            fs.append(_f("v%d" % q, ["vec", e]))
        new("table", n="T%s" % "ab"[k], f=fs)
    new("table", n="Tu", f=[_f("a", u1), _f("b", u2), _f("c", u3), _f("d", ["vec", u1]), _f("e", ["vec", u2]), _f("f", ["vec", u3])])
    s = Schema(name, D)
    s.root = len(D)
    return s


def modes_schema(r, name):
    """every type with every default worth having, required and optional"""
    D = []
    new = _new(D)
    E = new("enum", n="E", base="i8", vars=[{"n": "A", "v": []}, {"n": "B", "v": le("i8", -1)}, {"n": "C", "v": le("i8", 5)}])
    Z = new("enum", n="Z", base="u16", vars=[{"n": "X", "v": le("u16", 1)}, {"n": "Y", "v": le("u16", 65535)}])
    S = new("struct", n="S", fa=0, f=[{"n": "a", "t": ["u8"]}, {"n": "b", "t": ["f32"]}])
    L = new("table", n="L", f=[_f("x", ["u8"], d=["sc", [7]])])
    U = new("union", n="U", v=[{"n": "L", "t": L, "named": False}, {"n": "s", "t": ["str"], "named": True}])
    fs = []
    n = [0]

    def f(t, o="", d=None):
        fs.append(_f("f%d" % n[0], t, o, d))
        n[0] += 1

    tabs = []

    def flush(nm):
        new("table", n=nm, f=list(fs))
        tabs.append(["ref", len(D)])
        del fs[:]

    for t in INTS:
        lo, hi = rng_of(t)
        f([t]); f([t], "null")
        for v in sorted({lo, hi, 1, hi // 3, -1 if lo else 2}):
            f([t], d=["sc", le(t, v)])
    f(["bool"]); f(["bool"], "null"); f(["bool"], d=["sc", [1]]); f(["bool"], d=["sc", [0]])
    flush("Ta")
    for t, fm in (("f32", "<f"), ("f64", "<d")):
        f([t]); f([t], "null")
        for v in [1.0, -1.0, 0.1, -2.5, 1e10, -3e-30, 16777216.0, 65504.0, 123456.79, 3.0e38, float("inf"), float("-inf"), float("nan"), -0.0]:
            b = struct.pack(fm, v)
            f([t], d=["sc", list(b)])
    flush("Tb")
    for q in ("A", "B", "C"):
        f(E, d=["ev", q])
    f(E); f(E, "null"); f(Z, "null"); f(Z, d=["ev", "X"]); f(Z, d=["ev", "Y"])
    for x in ["", "a", "quote\" and \\ back", "\u00e9\u20ac\U0001f600", "line\nbreak", "{} {0} %s $x", "x" * 70]:
        f(["str"], d=["str", list(x.encode())])
    f(["str"]); f(["str"], "req"); f(["str"], "null")
    flush("Tc")
    for e in [["i32"], ["u8"], ["bool"], ["f64"], E, Z, S, ["str"], L, U]:
        f(["vec", e]); f(["vec", e], d=["vec", 0, []]); f(["vec", e], "req"); f(["vec", e], "null")
    flush("Td")
    f(S); f(S, "req"); f(S, "null"); f(L); f(L, "req"); f(L, "null"); f(U); f(U, "req"); f(U, "null")
    flush("Te")
    for e in [["i64"], ["i8"], E, S, ["str"], L, U]:
        f(["vec", e]); f(["vec", e], d=["vec", 0, []])
    f(S); f(L); f(U); f(["str"]); f(["str"], d=["str", list(b"dflt")]); f(["i32"], "null"); f(E, "null")
    flush("Tf")
    s = Schema(name, D)
    s.root = len(D)
    return s


def wide_schema(r, name):
    """a table whose vtable is longer than 255 bytes, and one whose object is longer than 32767 bytes"""
    D = []
    new = _new(D)
    A = new("struct", n="A", fa=4096, f=[{"n": "x", "t": ["u16"]}])
    B = new("struct", n="B", fa=0, f=[{"n": "a", "t": A}, {"n": "b", "t": A}, {"n": "y", "t": ["u64"]}])
    L = new("table", n="L", f=[_f("x", ["u8"])])
    fs = [_f("q%d" % k, r.choice([["u8"], ["i16"], ["u32"], ["f64"], ["str"], L, ["vec", ["u8"]], ["vec", ["str"]]])) for k in range(150)]
    new("table", n="V", f=fs)
    fs = [_f("a%d" % k, A) for k in range(6)] + [_f("b0", B), _f("c", ["u8"]), _f("d", ["str"]), _f("e", ["u32"]), _f("g", ["i64"], d=["sc", le("i64", -7)])]
    r.shuffle(fs)
    new("table", n="W", f=fs)
    s = Schema(name, D)
    s.root = len(D)
    return s
