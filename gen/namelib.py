"""Schemas for the generator: names that clash with others once generated, names that
mean something in Rust, all constructions of types, and types that depend on each other."""
import itertools, json, random, re
from projlib import Project, one

HAZARDS = """fooBar _ __ _1 __1 _a_1 a__b Foo_ u8 str f32 f64 usize i128 char Option Some None Ok Err Box Vec String Result Default Clone Copy Debug
PartialEq Iterator Drop From Into Send Sized Fn planus core std serde alloc root Root self_ super crate Self self T N A a H State T0 T1 T2 K buffer value
builder Builder table_writer object_writer f state other slice offset tag finish create prepare write eq cmp fmt hash clone from try_from into as_ref
partial_cmp default get to_vec map transpose is_some ENUM_VALUES error Error prepared type match yield gen abstract async await dyn union_ macro_rules
static raw auto try box r b br Prepared Value STRIDE SIZE ALIGNMENT then_with and_then ne lt le gt ge max min clamp unwrap ok_or iter len is_empty
first to_string to_owned borrow borrow_mut type_id serialize deserialize cursor cur n v i o bytes values array read_as_root read as_root as break const
continue else extern fn for if impl in let loop mod move mut pub ref return struct_ trait unsafe use where while become do final macro override priv
typeof unsized virtual size_of u128 isize Ref Owned Iter IntoIterator ToString Eq Ord PartialOrd Hash Unpin FnOnce Send_ Offset Cursor Table Vector
UnionVector field_ x_as_null x_as_default create_x""".split()

MEMBERS = ["foo", "Foo", "fooBar", "foo_bar", "FOO_BAR", "type", "Self", "self", "finish", "create", "builder", "cmp", "hash", "fmt", "value", "buffer", "_", "__", "x_1", "x1", "X1",
           "foo_as_null", "foo_as_default", "as", "create_foo", "field_foo", "prepared_foo", "a", "A", "n", "T", "_1", "partial_cmp", "eq", "clone"]


def members(r, n):
    return r.sample(MEMBERS, n)


def body(r, k, name, refs):
    """refs: [(kind, how it is written)] of declarations that may be used"""
    if k == "enum":
        return "enum %s : %s { %s }\n" % (name, r.choice(["byte", "ubyte", "short", "ulong"]), ", ".join(members(r, r.randint(1, 4))))
    if k == "struct":
        ts = ["short", "float", "bool", "ubyte", "double", "ulong"] + [x for q, x in refs if q in ("struct", "enum")]
        fs = members(r, r.randint(1, 4))
        return "struct %s { %s }\n" % (name, " ".join("%s: %s;" % (f, r.choice(ts)) for f in fs))
    if k == "union":
        ts = ["Zq"] + [x for q, x in refs if q in ("struct", "table")] + ["string"]
        vs = members(r, r.randint(1, 4))
        return "union %s { %s }\n" % (name, ", ".join("%s: %s" % (f, r.choice(ts)) for f in vs))
    ts = ["short", "float", "string", "[ubyte]", "[string]", "bool = true", "int = null", "string (required)"]
    for q, x in refs:
        ts += [x + (" = null" if q == "enum" else ""), "[%s]" % x] + ([x + " (required)"] if q != "enum" else [])
    return "table %s { %s }\n" % (name, " ".join("%s: %s;" % (f, r.choice(ts)) for f in members(r, r.randint(0, 5))))


def render(r, prog):
    """A project for a behaviour of GenNames."""
    spaces = sorted([tuple(s) for s in prog["s"]], key=len)
    files = {s: [] for s in spaces}
    decls = [(d["k"], tuple(d["ns"]), d["n"]) for d in prog["d"]]
    full = lambda ns, n: ".".join(list(ns) + [n])
    for q, (k, ns, n) in enumerate(decls):
        # names without a namespace are reached from everywhere, names of the same file always
        refs = []
        for z, (k2, ns2, n2) in enumerate(decls):
            if z == q or ((k, k2) == ("struct", "struct") and z > q):
                continue
            refs.append((k2, full(ns2, n2)))
        if k == "struct":
            refs = [x for x, z in zip(refs, [z for z in range(len(decls)) if z != q and not (k == "struct" and decls[z][0] == "struct" and z > q)]) if z < q or x[0] == "enum"]
        t = body(r, k, n, refs)
        if k == "union" and "Zq" in t and "table Zq" not in "".join(files[ns]):
            files[ns].append("table Zq { zq: int; }\n")
        files[ns].append(t)
    out = []
    name = {s: "f%d.fbs" % k for k, s in enumerate(spaces)}
    for s in spaces:
        out.append((name[s], "".join('include "%s";\n' % name[o] for o in spaces if o != s)
                    + ("namespace %s;\n" % ".".join(s) if s else "") + "".join(files[s])))
    return Project(out, list(range(len(out))), "names")


BODY = """enum Eq7 : short { X, Y } struct Sq7 { a: short; e: Eq7; f: float; } table Tq7 { a: ubyte; s: Sq7; x: string = "q"; v: [ubyte]; u: Uq7; l: bool; b: [byte];
 fl: double = nan; i: int = null; e: Eq7; w: [Eq7]; z: [Uq7]; y: [Sq7]; q: [Tq7]; } union Uq7 { Sq7, Tq7, z: string }\n"""


def hazards(names):
    out = []
    for h in names:
        out.append(one("""table %(h)s { a: short; b: string (required); me: %(h)s; mv: [%(h)s]; s: Sq7; z: string = "x"; e: Eq7 = null; }
struct Sq7 { a: ushort; b: bool; } enum Eq7 : int { A1, B1 } union Uq7 { %(h)s, Sq7 } table Zq7 { u: Uq7; v: [Uq7]; x: %(h)s (required); }""" % {"h": h}, "table " + h))
        out.append(one("""struct %(h)s { a: short; b: float; } struct Sq7 { x: %(h)s; e: Eq7; } table Zq7 { a: %(h)s; b: [%(h)s]; c: %(h)s (required); u: Uq7; v: [Uq7]; s: Sq7; }
enum Eq7 : byte { A1 } union Uq7 { %(h)s, aa: %(h)s }""" % {"h": h}, "struct " + h))
        out.append(one("""enum %(h)s : byte { A1, B1 } table Zq7 { a: %(h)s; b: %(h)s = B1; c: [%(h)s]; d: %(h)s = null; } struct Sq7 { a: %(h)s; b: Tq7; } struct Tq7 { a: %(h)s; }
table Yq7 { a: Sq7; b: Tq7 (required); u: Uq7; } union Uq7 { Sq7, Tq7 }""" % {"h": h}, "enum " + h))
        out.append(one("""table Aq7 { x: int; } struct Bq7 { x: int; } union %(h)s { Aq7, Bq7, c: string } table Zq7 { a: %(h)s; b: [%(h)s]; c: %(h)s (required); d: [%(h)s] (required); e: [%(h)s] = []; }""" % {"h": h}, "union " + h))
        out.append(one("""table A7 { x: int; %(h)s: int; y: int; } table B7 { %(h)s: string; } table C7 { %(h)s: [A7]; } table D7 { %(h)s: A7 (required); z: bool; } table E7 { %(h)s: U7; } union U7 { A7, B7 }
table F7 { %(h)s: float = nan; } struct S7 { a: byte; } table G7 { %(h)s: S7; } table H7 { %(h)s: [U7]; } table I7 { %(h)s: int = null; q: string (required); } table J7 { %(h)s: string = "a"; x_1: [ubyte]; }""" % {"h": h}, "field " + h))
        out.append(one("""struct S7 { %(h)s: int; } struct T7 { a7: byte; %(h)s: S7; c7: ushort; } enum E7 : byte { A1 } struct V7 { %(h)s: E7; w7: S7; } struct W7 { %(h)s: float; z7: S7; }
struct X7 { %(h)s: float; } struct Y7 { x7: X7; %(h)s: X7; } table Z7 { a: Y7; b: W7; c: V7; d: T7 (required); u: U7; } union U7 { S7, T7, V7, W7, X7, Y7 } union U8 { S7, T7 } table Z8 { u: U8 (required); v: [U8]; }""" % {"h": h}, "struct field " + h))
        out.append(one("enum E7 : ubyte { %(h)s = 1, q7 } table Z7 { a: E7 = q7; b: [E7]; c: E7 = null; } struct S7 { e: E7; }" % {"h": h}, "enum variant " + h))
        out.append(one("""table A7 { x: int; } struct B7 { x: int; } union U7 { %(h)s: A7, q7: B7 } union V7 { z7: string, %(h)s: string } table Z7 { a: U7; b: [V7]; c: V7 (required); }""" % {"h": h}, "union variant " + h))
        out.append(Project([("f0.fbs", "namespace %s;\n" % h + BODY)], [0], "namespace " + h))
        out.append(Project([("f0.fbs", "include \"f1.fbs\"; namespace qq;\n" + BODY + "table Rq7 { a: %(h)s.Tq7; b: %(h)s.Uq7; c: %(h)s.Sq7; d: [%(h)s.Tq7]; e: %(h)s.Eq7; }" % {"h": h}),
                            ("f1.fbs", "namespace %s;\n" % h + BODY)], [0, 1], "other namespace " + h))
        out.append(Project([("f0.fbs", "namespace qq;\n" + BODY), ("f1.fbs", "include \"f0.fbs\"; namespace qq.%s.%s;\n" % (h, h) + BODY.replace("u: Uq7", "u: qq.Uq7").replace("s: Sq7", "s: qq.Sq7"))], [0, 1], "nested namespace " + h))
        out.append(Project([("f0.fbs", BODY), ("f1.fbs", "namespace %s;\n" % h + BODY)], [0, 1], "child namespace " + h))
    return out


SCALARS = ["bool", "byte", "ubyte", "short", "ushort", "int", "uint", "long", "ulong", "float", "double"]
CONTEXT = "enum E:short{a,b} enum B:ubyte{p=3,q=200} struct S{x:int;e:E;} struct S2{f:float;} struct S3{s:S2;t:S;} table T{x:int;} table F{f:[double];} union U{T,S,z:string} union V{S2} union W{s:string} union X{F,S3}\n"


def field_types():
    ty = []
    for s in SCALARS:
        ty += [s, s + "=null"]
        ty += ["%s=%s" % (s, "true" if s == "bool" else "1")]
        if s in ("float", "double"):
            ty += [s + "=inf", s + "=-inf", s + "=nan", s + "=-1.5e30", s + "=0.1"]
        elif s in ("byte", "short", "int", "long"):
            n = {"byte": 7, "short": 15, "int": 31, "long": 63}[s]
            ty += ["%s=-%d" % (s, 2**n), "%s=%d" % (s, 2**n - 1)]
        elif s != "bool":
            ty += ["%s=%d" % (s, 2**{"ubyte": 8, "ushort": 16, "uint": 32, "ulong": 64}[s] - 1)]
    names = ["S", "S2", "S3", "T", "F", "U", "V", "W", "X", "string"]
    for s in names:
        ty += [s, s + "(required)", s + "=null"]
    ty += ["E", "E=b", "E=null", "B=q", "B=null", "string=\"\"", "string=\"a \\\" \\\\ {} \\u00e9 \\n\""]
    for s in SCALARS + names + ["E", "B"]:
        for d in ["", "(required)", "=null", "=[]"]:
            ty.append("[%s]%s" % (s, d))
    return ty


def types(r, n):
    ty = field_types()
    out = []
    for k in range(0, len(ty), 9):
        out.append(one(CONTEXT + "table R{%s}" % "".join("f%d:%s;" % (i, t) for i, t in enumerate(ty[k:k + 9])), "types"))
    for s in SCALARS + ["E", "B", "S", "S2", "S3"]:
        out.append(one(CONTEXT + "struct R{f:%s;} struct Q{a:byte;f:%s;b:ushort;g:R;} table P{r:R;q:Q(required);v:[R];u:Y;} union Y{R,Q}" % (s, s), "struct of " + s))
    for k in range(n):
        out.append(one(CONTEXT + "table R{%s}" % "".join("f%d:%s;" % (i, r.choice(ty)) for i in range(r.randint(1, 14))), "types"))
    for t in ["table A{}", "enum A:byte{}", "union A{}", "", "namespace a;", "table A{} table B{a:A;b:[A];c:A(required);}",
              "union A{} table B{a:A;b:[A];c:A(required);}", "enum A:byte{} table B{a:A=null;b:[A];} struct C{a:A;}", "union A{a:string,b:string} table B{a:A;b:[A];}",
              "struct A(force_align:16){a:int;} table B{a:A;b:[A];}", "table A{a:int(deprecated);b:U(deprecated);c:[U](deprecated);d:bool;} union U{A}",
              "enum E:ulong{a=18446744073709551615} struct S{a:E;} enum G:long{a=-9223372036854775808,b=0} table A{a:G=a;b:[E];c:E=a;} struct T{e:E;f:double;}",
              "table A{a:A;b:[A];c:U;d:[U];} union U{A,B} table B{a:A(required);u:U(required);}", "table A{f:int(id:2);g:U(id:1);} union U{A}",
              "enum E:uint (bit_flags){a,b,c=9}", "table A(force_align:8){a:int;}", "table A{a:int(force_align:16);b:[ubyte](force_align:32);}"]:
        out.append(one(t, "form"))
    return out


def graphs(r, n):
    """Types that depend on each other in all ways: what can be derived for one depends on what it reaches."""
    out = []
    for k in range(n):
        m = r.randint(2, 6)
        kinds = [r.choice(["table", "table", "struct", "union", "enum"]) for _ in range(m)]
        t = ["table Zq { q: int; }\n"]
        for i, q in enumerate(kinds):
            of = lambda ks, lim=m: ["D%d" % j for j in range(m) if kinds[j] in ks and (j < lim)]
            if q == "enum":
                t.append("enum D%d : %s { %s }\n" % (i, r.choice(["byte", "uint", "ulong"]), r.choice(["A", "A, B", "A = 1, B = 7"])))
            elif q == "struct":
                c = of(("struct",), i) + of(("enum",)) + [r.choice(["float", "int", "bool"])]
                t.append("struct D%d { %s }\n" % (i, " ".join("f%d: %s;" % (j, r.choice(c)) for j in range(r.randint(1, 3)))))
            elif q == "union":
                c = of(("struct", "table")) + ["Zq"] * (r.random() < .4)
                c = c or ["Zq"]
                t.append("union D%d { %s }\n" % (i, ", ".join("v%d: %s" % (j, r.choice(c + ["string"] * (r.random() < .3))) for j in range(r.randint(1, 3)))))
            else:
                fs = []
                for j in range(r.randint(0, 4)):
                    x = r.choice(of(("table", "struct", "union", "enum")) + ["string", "float", "int"])
                    kind = kinds[int(x[1:])] if x[0] == "D" else x
                    x = "[%s]" % x if r.random() < .3 else x
                    mode = r.choice(["", " = null"] + ([" (required)"] if x[0] == "[" or kind not in ("enum", "float", "int") else []))
                    if kind == "enum" and x[0] != "[" and mode == "":
                        mode = " = null"
                    fs.append("f%d: %s%s;" % (j, x, mode))
                t.append("table D%d { %s }\n" % (i, " ".join(fs)))
        out.append(one("".join(t), "graph"))
    return out


def docs(r):
    out = []
    for x in ["a", " a", "", "/", "/ x", "*/", "/*", "`", "[x](y)", "\\", "\"", "a\r", "a\rb", "\r\r", "\t", "é", "\u202e", "\u200b", "\ufeff", "\u2028", "{{ x }}", "{% if x %}", "#![allow()]", "\u0085", "\x0b", "\x0c", "\x01", "\x7f"]:
        out.append(one("///%(x)s\ntable A {\n///%(x)s\na: int; }\n///%(x)s\nstruct B {\n///%(x)s\na: int; }\n///%(x)s\nenum C : byte {\n///%(x)s\nX }\n///%(x)s\nunion D {\n///%(x)s\nA }\n" % {"x": x}, "doc"))
        out.append(one("//!%(x)s\nnamespace a.b;\ntable A { a: int; }\n" % {"x": x}, "inner doc"))
        out.append(one("//!%(x)s\ntable A { a: int; }\n" % {"x": x}, "inner doc"))
    return out
