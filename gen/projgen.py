"""Generators of schema projects (texts only; what they mean is decided by spec/Schema.tla)."""
import itertools, random
from projlib import Project, one
from schema import INTS, FLOATS, rng_of


# ------------------------------------------------------------------ C07
def ids(quick, r):
    out = []
    kinds = ["int", "U", "[U]"]
    idset = [None, 0, 1, 2, 3, 4, 5]

    def table(ks, ii, extra=""):
        fs = "".join("%s:%s%s;" % ("abcdefgh"[n], k, "" if i is None else "(id:%s)" % i) for n, (k, i) in enumerate(zip(ks, ii)))
        return one("table T{%s}union U{T}%s" % (fs, extra))

    for n in (0, 1, 2):
        for ks in itertools.product(kinds, repeat=n):
            for ii in itertools.product(idset, repeat=n):
                out.append(table(ks, ii))
    full = [(ks, ii) for ks in itertools.product(kinds, repeat=3) for ii in itertools.product(idset[1:], repeat=3)]
    part = [(ks, ii) for ks in itertools.product(kinds, repeat=3) for ii in itertools.product(idset, repeat=3) if None in ii]
    out += [table(*x) for x in (full + part if not quick else r.sample(full, 2500) + r.sample(part, 300))]
    # numbers at and beyond every limit, in every spelling
    weird = ["-1", "-0", "+0", "00", "0x0", "0x1", "1_0", "0_", "4294967295", "4294967296", "65535", "65536", "32764", "32765", "32766",
             "2147483647", "2147483648", "18446744073709551616", "1.0", "'0'", "true", "a", "[]", "", "--0", "-1_0", "0x"]
    for w in weird:
        for k in kinds + ["string"]:
            out.append(one("table T{a:%s(id:%s);}union U{T}" % (k, w)))
            out.append(one("table T{a:int(id:0);b:%s(id:%s);}union U{T}" % (k, w)))
    out.append(one("table T{a:int(id:0,id:0);}"))
    out.append(one("table T{a:int(id);}"))
    out.append(one("struct S{a:int(id:0);}"))
    # larger tables: every kind of field, ids shuffled, one disturbed
    allk = ["int", "bool", "double", "string", "U", "[U]", "[int]", "T", "S", "E", "[string]", "[T]", "[S]"]
    for _ in range(400 if quick else 4000):
        n = r.randint(2, 14)
        ks = [r.choice(allk) for _ in range(n)]
        order = list(range(n))
        r.shuffle(order)
        ii, nxt = [0] * n, 0
        for q in order:
            nxt += 1 if ks[q] in ("U", "[U]") else 0
            ii[q] = nxt
            nxt += 1
        c = r.random()
        if c < .25:
            ii = [None] * n
        elif c < .35:
            ii[r.randrange(n)] = None
        elif c < .65:
            q = r.randrange(n)
            ii[q] = r.choice([max(0, ii[q] - 1), ii[q] + 1, nxt, nxt - 1, 0, r.randint(0, nxt)])
        elif c < .7:
            ks[r.randrange(n)] = r.choice(allk)
        attrs = []
        for q in range(n):
            a = [] if ii[q] is None else ["id:%d" % ii[q]]
            if r.random() < .15:
                a.append("deprecated")
            if r.random() < .1 and ks[q] not in ("int", "bool", "double", "E"):
                a.append("required")
            r.shuffle(a)
            attrs.append("(%s)" % ",".join(a) if a else "")
        out.append(one("table T{%s}union U{T}struct S{a:int;}enum E:short{A}" % "".join("f%d:%s%s;" % (q, ks[q], attrs[q]) for q in range(n))))
    return out


# ------------------------------------------------------------------ C08
SC = ["bool", "byte", "ubyte", "short", "ushort", "int", "uint", "float", "long", "ulong", "double"]
ALIGNS = ["0", "1", "2", "3", "4", "6", "8", "16", "32", "64", "256", "1024", "65536", "1073741824", "2147483648", "4294967296", "4294967295",
          "4294967304", "-1", "-8", "0x10", "1_6", "8.0", "'8'", "true", "", "[8]", "x", "--8", "+8", "08", "0b1"]


def structs(quick, r):
    out = []
    pre = "enum E:ubyte{A}enum F:short{A}enum G:long{A}struct I{a:byte;b:short;}struct J(force_align:16){a:int;}"
    ts = ["byte", "short", "int", "long", "I", "J"]
    for n in (1, 2, 3):
        for t in itertools.product(ts, repeat=n):
            if n == 3 and quick and r.random() < .3:
                continue
            out.append(one("struct S{%s}" % "".join("%s:%s;" % ("abc"[q], x) for q, x in enumerate(t)) + (pre if {"I", "J"} & set(t) else "")))
    for al in ALIGNS:
        for t in ["byte", "short", "long", "J", "I"]:
            out.append(one("struct S(force_align:%s){a:%s;b:byte;}" % (al, t) + pre))
        out.append(one("table T{a:int(force_align:%s);}" % al))
        out.append(one("table T{a:string(force_align:%s);b:[long]; c:U(force_align:%s);}union U{T}" % (al, al)))
        out.append(one("table T{a:[byte](force_align:%s);b:S(force_align:%s);u:[U](force_align:%s);}struct S{a:short;}union U{T}" % (al, al, al) + pre))
    for al in (16, 1024, 2048, 4096, 16384, 32768):
        for k in sorted({3, 4, 65532 // al, 65532 // al + 1} - set(range(70, 5000))):
            out.append(one("table T{%s}" % "".join("f%d:ubyte(force_align:%d);" % (j, al) for j in range(k))))
    for md in ["(force_align)", "(force_align:8,force_align:8)", "()", "(force_align:8,)", "(align:8)", "(force_align:8,id:1)", "(force_align:)", "(force_align 8)"]:
        out.append(one("struct S%s{a:int;}" % md))
        out.append(one("struct S{a:int%s;}" % md))
        out.append(one("enum S:int%s{A}" % md))
        out.append(one("table S%s{a:int;}" % md))
    for _ in range(1500 if quick else 12000):
        k = r.randint(1, 6)
        ds = ["enum E:ubyte{A}", "enum F:short{A,B}", "enum G:ulong{A}"]
        have = SC + ["E", "F", "G"]
        strong = {}
        for q in range(k):
            fs = [r.choice(have if r.random() < .6 else SC + ["S%d" % x for x in range(q)] * 2) for _ in range(r.randint(1, 9))]
            md = ""
            if r.random() < .4:
                md = "(force_align:%s)" % r.choice([1, 2, 4, 8, 8, 16, 16, 32, 64, 128, 512])
            ds.append("struct S%d%s{%s}" % (q, md, "".join("f%d:%s;" % (z, t) for z, t in enumerate(fs))))
            have.append("S%d" % q)
        if r.random() < .3:
            ds.append("table T{a:S%d;b:[S%d];}" % (r.randrange(k), r.randrange(k)))
        r.shuffle(ds)
        out.append(one("".join(ds)))
    # sizes around the largest representable one
    for top in (27, 28, 29):
        for extra in ["", "b:byte;", "b:long;"]:
            for fa in ["", "(force_align:16)", "(force_align:1073741824)"]:
                d = ["struct S0{a:long;}"] + ["struct S%d{a:S%d;b:S%d;}" % (q, q - 1, q - 1) for q in range(1, top)]
                d.append("struct Z%s{a:S%d;%s}" % (fa, top - 1, extra))
                out.append(one("".join(d)))
                out.append(one("".join(d[:-1]) + "struct Z%s{%s%s}" % (fa, "".join("s%d:S%d;" % (q, q) for q in reversed(range(top))), extra)))
    # tables around their largest size: the inline parts must fit the 16-bit vtable entries
    for n in (65523, 65524, 65531, 65532, 65528, 32764, 16380):
        d, fs, m, q = [], [], n, 0
        d.append("struct B0{a:byte;}")
        for q in range(1, 17):
            d.append("struct B%d{a:B%d;b:B%d;}" % (q, q - 1, q - 1))
        fs = "".join("f%d:B%d;" % (q, q) for q in range(17) if m >> q & 1)
        for tail in ["", "x:byte;", "x:int;", "x:U;", "x:[U];"]:
            out.append(one("".join(d) + "table T{%s%s}union U{T}" % (fs, tail)))
    return out


# ------------------------------------------------------------------ C09
def enums(quick, r):
    out = []
    for t, (a, b, n, sg) in INTS.items():
        lo, hi = rng_of(t)
        vals = [None, "0", "1", str(hi), str(hi - 1), str(hi + 1), str(lo), str(lo - 1), "-1"]
        vals = list(dict.fromkeys(vals))
        full = quick and n not in (1,)
        for k in (1, 2, 3):
            for vs in itertools.product(vals, repeat=k):
                if k == 3 and r.random() < (.8 if quick else .0):
                    continue
                out.append(one("enum E:%s{%s}" % (r.choice([a, b]), ",".join("ABC"[q] + ("" if v is None else "=" + v) for q, v in enumerate(vs)))))
        more = ["0x%x" % hi, "0x%x" % (hi + 1), "-0x%x" % abs(lo), "-0x%x" % (abs(lo) + 1), "+5", "--5", "-+5", "- 5", "1_0", "0x1_0", "007", "1.0", "1e1",
                "'1'", "true", "null", "A", "B", "[]", "inf", "", "-", "99999999999999999999999", "-99999999999999999999999", "-0", "0x", "0X1"]
        for m in more:
            out.append(one("enum E:%s{A,B=%s,C}" % (a, m)))
    # the count of variants around the limits of one byte
    for t, lo, n in [("ubyte", 0, 256), ("ubyte", 0, 257), ("byte", -128, 256), ("byte", -128, 257), ("ubyte", 1, 255), ("ubyte", 1, 256)]:
        out.append(one("enum E:%s{%s}" % (t, ",".join("V%d%s" % (q, "=%d" % lo if q == 0 and lo else "") for q in range(n)))))
    for base in [":bool", ":float", ":double", ":string", ":S", ":E", ":F", "", ":[int]", ":[int:2]", ":int.int", ":Int", ":int32", ":uint64", ":"]:
        out.append(one("enum E%s{A,B}struct S{a:int;}enum F:int{A}" % base))
    for body in ["A,A", "A,B,A", "A=1,B=1", "A=0,B,C=1", "A,", ",A", "A,,B", "A;B", "A B", "A=", "=1", "", "A=1=2", "A:1", "A(1)", "A=1 (x)", "A.B", "E", "true,false", "null,inf,nan", "a,A",
                 "A=5,B=3,C", "C=3,B=2,A=1", "A=2,B=1,C"]:
        for t in ["ubyte", "int"]:
            out.append(one("enum E:%s{%s}" % (t, body)))
            out.append(one("enum E:%s{%s}table T{f:E=A;g:E;}" % (t, body)))
    for md in ["(bit_flags)", "()", "(force_align:8)", "(x)", "(bit_flags:1)", "(id:1)", "(deprecated)"]:
        out.append(one("enum E:ubyte %s{A,B}" % md))
        out.append(one("union E%s{T}table T{}" % md))
    for _ in range(600 if quick else 6000):
        t = r.choice(list(INTS))
        lo, hi = rng_of(t)
        vs, used, cur = [], set(), -1
        for q in range(r.randint(1, 9)):
            if r.random() < .45 and cur < hi and cur + 1 not in used:
                cur += 1
                vs.append("V%d" % q)
            else:
                cur = r.choice([lo, hi, hi - 1, 0, r.randint(lo, hi), r.randint(max(lo, -4), 9), cur - 1 if cur > lo else cur])
                if cur in used and r.random() < .85:
                    continue
                vs.append("V%d = %s" % (q, r.choice([str(cur), hex(cur) if cur >= 0 else "-" + hex(-cur)])))
            used.add(cur)
        out.append(one("enum E : %s {\n %s\n}\ntable T { a: E = null; b:[E]; }" % (r.choice(INTS[t][:2]), ",\n ".join(vs))))
    # unions
    vpool = ["A", "B", "S", "a:A", "b:A", "A:A", "B:A", "s:string", "A:string", "p.A", "q.p.A", "p_A", "x:p.A", "p.B", "A(x)", "string", "x:int", "x:E", "x:U", "x:[A]", "s:S", "int", "x:W", "E"]
    pre = [("a.fbs", 'include "p.fbs";include "q.fbs";table A{}table B{}struct S{a:int;}enum E:int{A}union U{%s}union W{A}table p_A{}'),
           ("p.fbs", "namespace p;table A{}table B{}"), ("q.fbs", "namespace q.p;table A{}")]
    ups = [list(x) for n in (0, 1, 2) for x in itertools.product(vpool, repeat=n)]
    for _ in range(400 if quick else 5000):
        ups.append([r.choice(vpool[:15]) for _ in range(r.randint(3, 6))])
    for vs in ups:
        out.append(Project([(pre[0][0], pre[0][1] % ",".join(vs))] + pre[1:]))
    for n in (254, 255, 256, 257):
        out.append(one("table A{}union U{%s}" % ",".join("v%d:A" % q for q in range(n))))
        out.append(one("union U{%s}%s" % (",".join("A%d" % q for q in range(n)), "".join("table A%d{}" % q for q in range(n)))))
    return out


# ------------------------------------------------------------------ C10
def defaults(quick, r):
    out = []
    pre = "enum E:byte{A,B=-1,C=5}enum Z:ubyte{X=1,Y=2}enum W:ulong{A=18446744073709551615,B=0}struct S{a:int;}table L{}union U{L}enum N:int{}"
    types = ["bool", "byte", "ubyte", "short", "ushort", "int", "uint", "long", "ulong", "float", "double", "string", "E", "Z", "W", "N", "S", "L", "U",
             "[int]", "[bool]", "[string]", "[E]", "[S]", "[L]", "[U]", "int32", "float64", "uint8", "Unknown", "[Unknown]"]
    lits = ["", "null", "0", "1", "-1", "+1", "--1", "-0", "5", "true", "false", "-true", "inf", "-inf", "infinity", "nan", "-nan", "NaN", "NULL", "True", "\"x\"", "'y'", "\"\"", "-\"x\"",
            "[]", "[1]", "[[]]", "[null]", "[,]", "A", "B", "C", "X", "E.A", "a", "Q", "-A", "\"A\"", "0x10", "1.5", "-1.5", "1e5", "-0.0", "0.0", "1e400", "-1e400", "3.4028236e38", "3.4e38", "1e39",
            "1e-50", "5e-324", "0x1p3", "0x.8p1", ".5", "5.", "1_0", "1.", "00", "007"]
    for t in ("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"):
        lo, hi = rng_of(t)
        lits += [str(hi), str(hi + 1)] + ([str(lo), str(lo - 1)] if lo else [])
    lits = list(dict.fromkeys(lits))
    used = lambda t: pre if any(c in t for c in "EZWSLUN") else ""
    for t in types:
        for l in lits:
            out.append(one("table T{f:%s%s;}%s" % (t, " = " + l if l else "", used(t))))
    attrs = ["(required)", "(deprecated)", "(required,deprecated)", "(deprecated,required)", "(required:1)", "(deprecated:0)", "(deprecated:true)", "(required:\"x\")", "(key)", "(hash:\"fnv1_32\")",
             "(required,required)", "(deprecated,deprecated)", "()", "(force_align:8)", "(force_align:16,required)", "(Required)", "(shared)", "(nested_flatbuffer:\"T\")", "(required,)", "(original_order)",
             "(flexbuffer)", "(native_inline)", "(required;)", "(,)", "(id:0,required)", "(id:1,required)"]
    for t in types:
        for a in attrs:
            for l in ["", "null", "0", "A", "[]", "\"x\""]:
                out.append(one("table T{f:%s%s%s;}%s" % (t, " = " + l if l else "", a, used(t))))
    for _ in range(800 if quick else 8000):
        fs = []
        for q in range(r.randint(1, 7)):
            t = r.choice(types[:-2])
            good = {"bool": ["true", "false"], "string": ["\"a\"", "''"], "E": ["A", "B", "C", "5", "-1"], "Z": ["X", "2"], "W": ["A", "B"]}
            l = r.choice(good.get(t, ["[]"] if t[0] == "[" else ["0", "1", "100", "-1", "1.5", "127"]) + ["", "", "null"] + ([r.choice(lits)] if r.random() < .1 else []))
            a = r.choice(["", "", "", "(deprecated)", "(required)" if r.random() < .3 else ""])
            fs.append("f%d:%s%s%s;" % (q, t, " = " + l if l else "", a))
        out.append(one("table T{%s}%s" % ("".join(fs), pre)))
    if quick:
        n = 5000
        head = [p for p in out]
        if len(out) > n:
            out = r.sample(head, n)
    return out


# ------------------------------------------------------------------ C12
def directories(count, dirs, r):
    """paths in every spelling, missing and broken files"""
    out = []
    for _ in range(count):
        n = r.randint(2, 5)
        nm = []
        for q in range(n):
            nm.append("%sf%d.fbs" % (r.choice(dirs), q % 3 if r.random() < .3 else q))
        nm = list(dict.fromkeys(nm))
        n = len(nm)
        files = []

        def spell(a, b):
            d = a.split("/")[:-1]
            t = b.split("/")
            k = 0
            while k < min(len(d), len(t) - 1) and d[k] == t[k]:
                k += 1
            if ".." in d[k:] and r.random() < .9:
                return None  # no such path without the names of the directories above
            s = [".."] * (len(d) - k) + t[k:]
            out = []
            for z in s:
                if r.random() < .1:
                    out.append(".")
                if r.random() < .04:
                    out.append("")
                out.append(z)
            p = "/".join(out)
            p = p.lstrip("/")
            if r.random() < .06:
                p = "x/../" + p
            if r.random() < .05:
                p = p.replace("f", "h")
            if r.random() < .03:
                p = "../" + p
            return p

        for q, a in enumerate(nm):
            inc = [spell(a, nm[z]) for z in range(n) if r.random() < .35]
            inc = [x for x in inc if x]
            if inc and r.random() < .15:
                inc.append(r.choice(inc))
            ns = r.choice(["", "a", "a.b", "b", "b", "a"])
            t = "T%d" % (q if r.random() < .93 else 0)
            ref = r.choice(["T%d" % r.randrange(n), "%s.T%d" % (r.choice(["a", "b", "a.b"]), r.randrange(n)), "b.T%d" % r.randrange(n)])
            body = "".join('include "%s";\n' % x for x in inc) + ("namespace %s;\n" % ns if ns else "") + "table %s{r:%s;}\n" % (t, ref if r.random() < .7 else "int")
            if r.random() < .03:
                body = r.choice(["table {", "\xff\xfe", "namespace a;namespace b;", "table T9{} include 'x';"])
            files.append((a, body.encode("latin1")))
        main = r.sample(range(n), r.randint(1, min(3, n)))
        if r.random() < .1:
            main.append(main[0])
        out.append(Project(files, main))
    return out


def namespaces(quick, r):
    out = []
    spaces = ["", "a", "b", "a.b", "a.b.c", "b.a", "a.a", "T", "a.T"]
    # one file: a reference from each namespace to each of a set of declarations elsewhere
    decls = [("", "T"), ("a", "T"), ("a.b", "T"), ("b", "T"), ("b.a", "T"), ("a.a", "T"), ("a.b.c", "T")]
    refs = ["T", "a.T", "b.T", "a.b.T", "b.a.T", "a.a.T", "a.b.c.T", "c.T", "b.c.T", "a", "a.b", "x.T", "T.T", "int", "a.int"]
    for _ in range(1200 if quick else 12000):
        have = r.sample(decls, r.randint(0, 4))
        ns = r.choice(spaces[:7])
        fs = [("f%d.fbs" % q, "%stable %s {}" % ("namespace %s;" % n if n else "", t)) for q, (n, t) in enumerate(have)]
        inc = [q for q in range(len(fs)) if r.random() < .8]
        r.shuffle(inc)
        rs = r.sample(refs, r.randint(1, 3))
        body = "".join('include "f%d.fbs";' % q for q in inc) + ("namespace %s;" % ns if ns else "")
        tk = r.choice(["table R{%s}", "table R{%s}", "table R{%s}", "union R{%s}", "struct R{%s}"])
        body += tk % (",".join("v%d:%s" % (q, x) for q, x in enumerate(rs)) if tk[0] == "u" else "".join("f%d:%s;" % (q, ("[%s]" % x if tk[0] == "t" and r.random() < .3 else x)) for q, x in enumerate(rs)))
        files = fs + [("main.fbs", body)]
        main = [len(fs)] + [q for q in range(len(fs)) if r.random() < .25]
        r.shuffle(main)
        out.append(Project(files, main))
    # include graphs: every graph over three files, every set of main files for some
    pairs = [(x, y) for x in range(3) for y in range(3)]
    for bits in range(512):
        if quick and bits % 2 and r.random() < .4:
            continue
        g = [p for q, p in enumerate(pairs) if bits >> q & 1]
        files = []
        for x in range(3):
            body = "".join('include "f%d.fbs";' % y for a, y in g if a == x)
            ref = r.randrange(3)
            body += "namespace n%d;table T%d{r:%sT%d;}" % (x % 2, x, "n%d." % (ref % 2) if ref % 2 != x % 2 or r.random() < .5 else "", ref)
            files.append(("f%d.fbs" % x, body))
        main = [r.randrange(3)] if r.random() < .7 else r.sample([0, 1, 2], r.randint(1, 3))
        out.append(Project(files, main))
    out += directories(800 if quick else 8000, ["", "d/", "d/e/", "g/"], r)
    # files named by paths that lead up from the working directory
    out += directories(500 if quick else 5000, ["", "d/", "../", "../d/", "../../", "../../d/e/", "../../../", "../../../g/"], r)
    # declarations that collide, in one file and over several
    names = ["T", "a", "b", "S"]
    for _ in range(500 if quick else 4000):
        files = []
        n = r.randint(1, 3)
        for q in range(n):
            ns = r.choice(["", "a", "a.b", "a.T", "b", "T"])
            ds = "".join(r.choice(["table %s{}", "struct %s{x:int;}", "enum %s:int{A}", "union %s{}"]) % r.choice(names) for _ in range(r.randint(0, 2)))
            inc = "".join('include "f%d.fbs";' % z for z in range(n) if z != q and r.random() < .5)
            files.append(("f%d.fbs" % q, inc + ("namespace %s;" % ns if ns else "") + ds))
        out.append(Project(files, r.sample(range(n), r.randint(1, n))))
    # order of the items of a file
    items = ['include "i.fbs";', "namespace a;", "namespace b.c;", "table T{}", "struct S{x:int;}", "root_type T;", "root_type Unknown.X;", 'file_identifier "ABCD";', 'file_identifier "toolong";',
             'file_extension "x";', "attribute foo;", 'attribute "foo";', "native_include 'x';", "rpc_service R{m(T):T;}", "enum E:int{A}", "union U{T}", "root_type [T];", "root_type [T:3];", "root_type [T:x];", "root_type int;"]
    for n in (1, 2):
        for p in itertools.permutations(items, n):
            out.append(Project([("a.fbs", "".join(p)), ("i.fbs", "table I{}")]))
    for _ in range(400 if quick else 4000):
        out.append(Project([("a.fbs", "".join(r.choice(items[:5] + items) for _ in range(r.randint(3, 6)))), ("i.fbs", "table I{}")]))
    # fields and names declared twice
    for a in "xyX":
        for b in "xy":
            out.append(one("table T{%s:int;%s:int;}" % (a, b)))
            out.append(one("struct T{%s:int;%s:int;}" % (a, b)))
    return out


# ------------------------------------------------------------------ C16
def types(quick, r):
    out = []
    pre = "enum E:byte{A}enum B:bool{A}struct S{a:int;}table L{}union U{L}union V{s:string}union W{S}rpc_service R{m(L):L;}"
    dd = {"E": "enum E:byte{A}", "S": "struct S{a:int;}", "L": "table L{}", "U": "union U{L}table L{}", "V": "union V{s:string}", "W": "union W{S}struct S{a:int;}", "R": "rpc_service R{m(L):L;}table L{}",
          "Q": "struct Q{q:Q;}", "X": ""}
    base = ["bool", "byte", "ubyte", "short", "ushort", "int", "uint", "long", "ulong", "float", "double", "string", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64",
            "E", "S", "L", "U", "V", "W", "R", "Q", "X", "Int", "str", "String", "char", "bool8"]
    forms = ["%s", "[%s]", "[[%s]]", "[%s:3]", "[[%s:2]]", "[[%s]:2]", "[%s:0]", "[%s:x]", "[%s:-1]", "[%s:4294967296]", "[%s:\"s\"]", "[%s:1.5]", "[%s:[]]", "[%s:['a']]"]
    pos = ["table T{f:%s;}", "struct T{f:%s;}", "union T{%s}", "union T{n:%s}", "enum T:%s{A}", "table T{f:%s=null;}", "table T{f:%s(required);}", "table T{f:%s=null(required);}",
           "table T{f:%s(deprecated);}", "root_type %s;", "union T{n:%s,m:%s}", "table T{f:%s=[];}", "table T{f:%s=0;}", "struct T{f:%s=0;}", "struct T{f:%s=null;}", "struct T{f:%s(required);}", "struct T{f:%s(deprecated);}",
           "struct T{a:byte;f:%s;}", "rpc_service T{m(%s):L;}table L{}"]
    for b in base:
        for f in forms:
            if quick and f not in forms[:4] and b not in ("int", "string", "L", "U", "S"):
                continue
            for p in pos:
                t = f % b
                out.append(one(p.replace("%s", t) + (dd.get(b, "") if not ("table L{}" in p and "table L{}" in dd.get(b, "")) else "")))
    # every graph of struct references over three structs, with and without scalars
    for bits in range(512):
        g = [(x, y) for x in range(3) for y in range(3) if bits >> (3 * x + y) & 1]
        out.append(one("".join("struct S%d{%s%s}" % (x, "".join("f%d:S%d;" % (y, y) for a, y in g if a == x), "z:byte;" if bits % 3 or x else "") for x in range(3))))
    for _ in range(500 if quick else 5000):
        n = r.randint(4, 7)
        ds = []
        perm = list(range(n))
        r.shuffle(perm)
        for q in range(n):
            refs = [perm[z] for z in range(q) if r.random() < .4]
            if r.random() < .12:
                refs.append(r.randrange(n))
            ds.append("struct S%d{%s}" % (perm[q], "".join("f%d:S%d;" % (z, x) for z, x in enumerate(refs)) + ("a:%s;" % r.choice(["int", "byte", "E"]) if r.random() < .9 or not refs else "")))
        ds.append("enum E:short{A}table T{%s}" % "".join("f%d:%s;" % (z, r.choice(["S%d", "[S%d]"]) % r.randrange(n)) for z in range(2)))
        r.shuffle(ds)
        out.append(one("".join(ds)))
    # recursion that is fine: through tables, vectors and unions
    for _ in range(300 if quick else 3000):
        n = r.randint(1, 4)
        ds = []
        for q in range(n):
            k = r.choice(["table", "table", "union", "struct"])
            refs = ["%s%d" % ("D", r.randrange(n)) for _ in range(r.randint(0, 3))]
            if k == "union":
                ds.append("union D%d{%s}" % (q, ",".join("v%d:%s" % (z, x) for z, x in enumerate(refs))))
            elif k == "table":
                ds.append("table D%d{%s}" % (q, "".join("v%d:%s;" % (z, r.choice(["%s", "[%s]", "[%s]", "%s"]) % x) for z, x in enumerate(refs))))
            else:
                ds.append("struct D%d{a:int;%s}" % (q, "".join("v%d:%s;" % (z, x) for z, x in enumerate(refs[:1]))))
        out.append(one("".join(ds)))
    for n in (0, 1, 254, 255, 256):
        out.append(one("table L{}union U{%s}table T{f:U;g:[U];}" % ",".join("v%d:L" % q for q in range(n))))
    return out


# ------------------------------------------------------------------ C20
def strings(r):
    parts = ["a", " ", "\\n", "\\t", "\\r", "\\b", "\\f", "\\\\", "\\/", "\\'", "\\\"", "\\u0041", "\\u00e9", "\\u20AC", "\\ud800", "\\udfff", "\\uFFFF", "\\u12", "\\x41", "\\x7f", "\\x80", "\\xff", "\\x4", "\\q", "\\",
             "\\0", "\\U0041", "\n", "\r\n", "\r", "\t", "\x00", "\x7f", "\u00e9", "\u20ac", "\U0001f600", "//", "///", "'", '"', "\\N", "\\X41", "\\u{41}", "0"]
    for q in "\"'":
        for p in parts:
            yield q + p + q
            yield q + "x" + p + "y" + q
            yield q + p
        for _ in range(1):
            yield q
    for _ in range(900):
        q = r.choice("\"'")
        yield q + "".join(r.choice(parts[:20] if r.random() < .8 else parts) for _ in range(r.randint(0, 6))) + q


def numbers(r):
    sg = ["", "-", "+", "--", "-+", "- ", "-\n"]
    ints = ["0", "1", "7", "00", "0_", "1__2", "_1", "1_", "0x0", "0xF", "0xf_F", "0x_f", "0x", "0X1", "0x_", "0b1", "0o7", "127", "128", "255", "256", "0xff", "0x100", "32767", "32768", "65535", "65536", "2147483647",
            "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "0xffffffffffffffff", "0x10000000000000000", "1" * 60,
            "0" * 60 + "5", "0xFFFF_FFFF", "1e2", "12e0", "1a", "0xg", "12abc", "1.0", "2."]
    for s in sg:
        for x in ints:
            yield s + x
    fl = ["0.0", ".0", "0.", ".", "1.5", ".5", "5.", "1e5", "1E5", "1e+5", "1e-5", "1e", "1e+", "1.e3", ".5e3", "1.5e-3", "1e400", "1e-400", "0e999999999", "1e99999999999", "1e-99999999999", "3.4028234e38", "3.4028235e38",
          "3.4028235677973366e38", "3.4028235677973367e38", "3.40282357e38", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "5e-324", "2e-324", "2.4703282292062327e-324", "2.4703282292062328e-324",
          "1.401298464324817e-45", "7e-46", "7.006492321624085e-46", "7.006492321624086e-46", "1.1754943508222875e-38", "1.17549435e-38", "2.2250738585072014e-308", "2.2250738585072011e-308", "0.1", "0.3", "123456789.123456789",
          "16777217", "16777219", "9007199254740993", "9007199254740995", "1.00000005960464477539", "1.00000017881393432617", "0x1p0", "0x1.8p1", "0x.8p1", "0x1.p1", "0X1P-3", "0x1p", "0x1.8", "0x.p1", "0x1p+2", "0xAp1", "0x1.fffffep127",
          "0x1.ffffffp127", "0x1p1024", "0x1p-1074", "0x1p-1075", "0x1.8p-1075", "0x1p-149", "0x1.000001p-127", "0x0.0000010000001p-126", "0x1.0000010000000000001p0", "0x1.000001p0", "0x1.000003p0", "0x1.0000030000000000000000001p0", "0x1.00000000000008p0", "0x1.000000000000080000000000000000001p0", "0x1.00000000000018p0", "0x1.8p-1074", "0x1.00000000000001p-1040", "0x1.0000000001p-1030", "0x1.ffffffffffffffp-1023", "0x123456789abcdef0123456789abcdef0123456789abcdefp-100", "0x1.0000010000001p-127", "0x1p-150", "1_0.5", "1.5_0", "1_000e3", "1..2", "1.5.2", "inf", "nan", "infinity", "NaN", "Inf", "INF", "inf1", "e5", "_1.5",
          "8.5e0", "1e0_1", "6.0221409e+23", "0.000000000000000000000000000000000000000000001", "1" * 50 + ".5", "0." + "0" * 50 + "1", "1" * 320, "0." + "9" * 40]
    for s in sg:
        for x in fl:
            yield s + x
    for _ in range(500):
        yield r.choice(["", "-"]) + "%s%se%d" % (r.choice([str(r.randint(0, 10**r.randint(1, 25))), ""]) or "0", r.choice(["", ".", ".%d" % r.randint(0, 10**r.randint(1, 20))]), r.randint(-330, 315))
    for _ in range(150):
        import struct
        b = r.getrandbits(64)
        x = struct.unpack("<d", b.to_bytes(8, "little"))[0]
        if x == x and abs(x) != float("inf"):
            yield repr(x)
    for _ in range(150):
        import struct
        b = r.getrandbits(32)
        x = struct.unpack("<f", b.to_bytes(4, "little"))[0]
        if x == x and abs(x) != float("inf"):
            yield repr(x)
            # the neighbourhood of half way to the next value
            from fractions import Fraction
            e = max(-149, (b >> 23 & 255) - 150)
            h = abs(Fraction(x)) + Fraction(2) ** (e - 1)
            d = h * Fraction(10) ** 60
            if d.denominator == 1 and h < 10**20 and h > 10**-20:
                t = str(d.numerator).rjust(61, "0")
                yield t[:-60] + "." + t[-60:]
                yield t[:-60] + "." + t[-60:] + "1"


SAMPLE = ['//! top\n', 'include', '"i.fbs"', ';', 'namespace', 'a', '.', 'b', ';', 'table', 'T', '{', 'f', ':', 'int', '=', '-', '5', '(', 'deprecated', ',', 'id', ':', '0', ')', ';', 'g', ':', '[', 'U', ']', '(', 'id', ':', '2', ')', ';', '}',
          'struct', 'S', '(', 'force_align', ':', '8', ')', '{', 'x', ':', 'E', ';', 'y', ':', 'byte', ';', '}', 'enum', 'E', ':', 'int', '{', 'A', '=', '0', ',', 'B', ',', '}', 'union', 'U', '{', 'T', ',', 's', ':', 'string', '}', 'root_type', 'T', ';',
          'file_identifier', '"ABCD"', ';', 'file_extension', '"x"', ';']


def layout(r, toks, glue):
    return "".join(t + glue(r, k) for k, t in enumerate(toks))


def literals(quick, r):
    out = []
    n = 0
    for s in strings(r):
        out.append(one("table T{f:string=%s;}" % s))
        if n % 4 == 0:
            out.append(one("file_identifier %s;table T{}" % s))
        n += 1
    ts = ["float", "double", "int", "ubyte", "long", "ulong", "byte"]
    for x in numbers(r):
        for t in (["float", "double", r.choice(ts[2:])] if not quick else [r.choice(ts[:2]), r.choice(ts)]):
            out.append(one("table T{f:%s=%s;}" % (t, x)))
    for x in ["true", "false", "TRUE", "0", "1", "null", "\"true\"", "truefalse", "true false", "true/**/", "true//x\n", "-true"]:
        out.append(one("table T{f:bool=%s;}" % x))
    if quick:
        return out
    for x in numbers(r):
        out.append(one("enum E:%s{A=%s,B}" % (r.choice(["byte", "ubyte", "int", "long", "ulong"]), x)))
        out.append(one("table T{f:int(id:%s);}" % x))
    return out


def comments(quick, r):
    out = []
    I = ("i.fbs", "table I{}")
    forms = ["/// doc", "//! in", "// c", "//", "///", "//!", "////", "/// a\n/// b", "// c\n/// d", "/// d\n// c", "//! x\n//! y", "/// \u00e9\u20ac", "///\t tab ", "/ /", "/* c */", "/", "/// d\r", "///  two  ", "//!//", "/// d\n//! i", "//! i\n/// d"]
    ends = ["\n", "\r\n"]
    gaps = range(len(SAMPLE) + 1)
    for g in gaps:
        for f in forms:
            if quick and f not in forms[:3] and r.random() < .7:
                continue
            e = r.choice(ends)
            for before in (["\n", " "] if not quick else [r.choice(["\n", " "])]):
                t = "".join(s + (" " if k + 1 != g else "") for k, s in enumerate(SAMPLE[:g]))
                out.append(Project([("a.fbs", t + before + f.replace("\n", e) + e + " ".join(SAMPLE[g:])), I]))
    small = [["table", "T", "{", "f", ":", "int", ";", "}"], ["enum", "E", ":", "int", "{", "A", ",", "B", "}"], ["union", "U", "{", "s", ":", "string", "}"], ["struct", "S", "{", "f", ":", "int", ";", "}"],
             ["rpc_service", "R", "{", "}"], ["namespace", "a", ";"], ["root_type", "T", ";"], [], ["table", "T", "{", "}", "table", "V", "{", "}"]]

    def glue(r, k):
        c = r.random()
        if c < .35:
            return " "
        if c < .5:
            return "\n"
        s = r.choice([" ", "\n", "\n\n", "", "\t", "\f", "\r\n"])
        for _ in range(r.randint(1, 3)):
            s += r.choice(["/// x%d", "// y%d", "/// z%d", "//! i%d", "///%d", "// %d \u00e9"]) % k + r.choice(["\n", "\n", "\r\n", "\n\n", "\n \t"])
        return s

    for _ in range(3000 if quick else 25000):
        toks = []
        for _ in range(r.randint(1, 2)):
            toks += r.choice(small)
        # doc comments mostly where they are allowed
        ok = [0] + [k for k, t in enumerate(toks) if k and (t in ("table", "enum", "struct", "union", "rpc_service") or toks[k - 1] in ("{", ";", ",") and t not in "}{")]
        s = r.choice(["", "", "//! top\n", "//! a\n// b\n//! c\n", "/// d\n", "//! a\r\n\r\n"])
        for k, t in enumerate(toks):
            if k in ok and r.random() < .4:
                s += "\n" + "".join(r.choice(["/// x%d", "// y%d", "///z%d"]) % (10 * k + q) + r.choice(["\n", "\r\n", "\n  \n"]) for q in range(r.randint(1, 3)))
            s += t
            s += glue(r, k) if r.random() < .06 else r.choice([" ", " ", "\n", " // p\n", "\t"])
        if r.random() < .2:
            s += r.choice(["// end", "/// end", "//! end", "//", "// end\n", "/// end\n", "\r", "\r\n"])
        out.append(one(s))
    return out


# ------------------------------------------------------------------ C23
KNOWN = ("bit_flags csharp_partial private original_order required deprecated key shared cpp_str_flex_ctor native_inline flexbuffer idempotent",
         "force_align id", "native_type native_type_pack_name nested_flatbuffer hash cpp_type cpp_ptr_type cpp_ptr_type_get cpp_str_type native_default streaming")


def attributes(quick, r):
    """attributes of every kind in every place"""
    flags, ints, texts = (x.split() for x in KNOWN)
    unknown = ["priority", "Key", "Required", "requiredx", "require", "deprecate", "force", "ID", "nested", "nullable", "a", "_", "table", "force_align_", "bitflags", "cpp"]
    values = ["1", "0", "-1", "true", "null", "1.5", '"s"', "x", "inf", "[]", "[1, 2]", "-true", '-"s"', "99999999999999999999999"]

    def attr():
        c = r.random()
        if c < .45:
            n = r.choice(unknown)
            return n + (": " + r.choice(values) if r.random() < .4 else "")
        if c < .8:
            n = r.choice(["required", "deprecated", "id: 0", "id: 1", "force_align: 4", "force_align: 8", "id: 2"])
            return n
        n = r.choice(flags + ints + texts)
        v = "" if n in flags else ": 8" if n in ints else ': "s"'
        return n + (v if r.random() < .7 else r.choice(["", ": 1", ': "s"', ": " + r.choice(values)]))

    def md(p):
        return "(" + ", ".join(attr() for _ in range(r.choice([0, 1, 1, 1, 2, 3]))) + ")" if r.random() < p else ""

    def project(p):
        s = "table A { x: int; }\n"
        for k in range(r.randint(1, 3)):
            q = r.random()
            if q < .4:
                s += "table T%d %s { %s }\n" % (k, md(p), " ".join("f%d: %s %s;" % (f, r.choice(["int", "string", "[int]", "A", "U"]), md(2 * p)) for f in range(r.randint(1, 3))))
            elif q < .6:
                s += "struct S%d %s { %s }\n" % (k, md(p), " ".join("f%d: %s %s;" % (f, r.choice(["int", "ubyte"]), md(p)) for f in range(r.randint(1, 2))))
            elif q < .8:
                s += "enum E%d: int %s { %s }\n" % (k, md(2 * p), ", ".join("ABC"[:r.randint(1, 3)]))
            else:
                s += "union V%d %s { %s }\n" % (k, md(p), ", ".join("%s %s" % (v, md(2 * p)) for v in r.choice([["A"], ["a: A", "b: A"], ["A", "s: string"]])))
        return one(s + "union U { A }\n")

    out = [project(r.choice([.1, .3, .6])) for _ in range(1200 if quick else 12000)]
    every = flags + ints + texts + unknown
    for n in every:
        for v in ["", ": 8", ': "s"'] + ([": 1.5", ": true", ": []"] if not quick else []):
            for place in ["table T (%s) { f: int; }", "table T { f: [A]; g: int (%s); } table A {}", "struct S (%s) { f: int; }", "struct S { f: int (%s); }", "enum E: byte (%s) { A }",
                          "union U (%s) { A } table A {}", "union U { A (%s) } table A {}", "rpc_service R { f(A): A (%s); } table A {}"]:
                if not quick or r.random() < .25:
                    out.append(one(place % (n + v)))
    return out


# ------------------------------------------------------------------ C13
def pieces(r):
    """tokens of one declaration of any kind, with everything the grammar offers"""
    def ident():
        return r.choice(["a", "b", "Cc", "d_1", "table", "_x"])

    def expr(d=0):
        c = r.random()
        if c < .3:
            return [r.choice(["0", "1", "0x1F", "1_000", "00", "7"])]
        if c < .45:
            return [r.choice(["1.5", ".5", "5.", "1e5", "0x1p3", "1.e-3", "1E+2"])]
        if c < .65:
            return [r.choice(['"s"', "'q'", '"a b"', "'\\''", '"\\u00e9\\n"', "'//x'", '"\\\\"', '""', '"\u00e9"', '"a\nb"'])]
        if c < .8:
            return [r.choice(["true", "null", "A", "x"])]
        if c < .9 or d > 2:
            return [r.choice("+-")] + expr(d + 1)
        xs = [expr(d + 1) for _ in range(r.randint(0, 3))]
        return ["["] + sum([x + [","] for x in xs[:-1]], []) + (xs[-1] + r.choice([[], [","]]) if xs else []) + ["]"]

    def path():
        return sum([[ident(), "."] for _ in range(r.choice([0, 0, 0, 1, 2]))], []) + [ident()]

    def typ(d=0):
        c = r.random()
        if c < .7 or d > 2:
            return path()
        if c < .9:
            return ["["] + typ(d + 1) + ["]"]
        return ["["] + typ(d + 1) + [":"] + expr(2) + ["]"]

    def meta():
        if r.random() < .6:
            return []
        xs = [[ident()] + ([":"] + expr(1) if r.random() < .6 else []) for _ in range(r.randint(0, 3))]
        return ["("] + sum([x + [","] for x in xs[:-1]], []) + (xs[-1] + r.choice([[], [], [","]]) if xs else []) + [")"]

    k = r.choice(["table", "table", "struct", "enum", "union", "rpc_service", "include", "native_include", "namespace", "attribute", "attribute", "root_type", "file_extension", "file_identifier"])
    n = r.choice([0, 0, 1, 1, 2, 3])
    if k in ("table", "struct"):
        return [k, ident()] + meta() + ["{"] + sum([[ident(), ":"] + typ() + (["="] + expr() if r.random() < .4 else []) + meta() + [";"] for _ in range(n)], []) + ["}"]
    if k == "enum":
        v = [[ident()] + (["="] + expr() if r.random() < .5 else []) + [","] for _ in range(n)]
        if v and r.random() < .6:
            v[-1].pop()
        return [k, ident()] + ([":"] + typ() if r.random() < .7 else []) + meta() + ["{"] + sum(v, []) + ["}"]
    if k == "union":
        v = [([ident(), ":"] if r.random() < .5 else []) + typ() + meta() + [","] for _ in range(n)]
        if v and r.random() < .6:
            v[-1].pop()
        return [k, ident()] + meta() + ["{"] + sum(v, []) + ["}"]
    if k == "rpc_service":
        return [k, ident(), "{"] + sum([[ident(), "("] + typ() + [")", ":"] + typ() + meta() + [";"] for _ in range(n)], []) + ["}"]
    if k == "namespace":
        return [k] + path() + [";"]
    if k == "root_type":
        return [k] + typ() + [";"]
    if k == "attribute":
        return [k, r.choice([ident(), '"at"', "'at'"]), ";"]
    return [k, r.choice(['"x.fbs"', "'y'", '"a\\tb"']), ";"]


def formats(quick, r):
    """syntactically valid files over the whole grammar, with layout and comments everywhere; most mean nothing"""
    out = []

    def gap(dense):
        if r.random() > dense:
            return r.choice([" ", " ", " ", "\n", "", "\n\n", "\t"])
        s = r.choice([" ", "\n", "\n\n", "\n\n\n", "\n \n", "\t", "\r\n", "\r\n\r\n"])
        for _ in range(r.choice([1, 1, 2, 3])):
            s += r.choice(["// c%d", "// c%d", "/// d%d", "//! i%d", "//%d", "////%d", "// %d  ", "// %d \u00e9", "//\t%d"]) % r.randint(0, 99)
            s += r.choice(["\n", "\n", "\n\n", "\r\n", "\n\n\n", "\n  ", "\n\t\n"])
        return s

    for _ in range(3500 if quick else 40000):
        dense = r.choice([0, .05, .15, .15, .5, .9])
        ts = sum([pieces(r) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 5]))], [])
        s = r.choice(["", "", gap(1)])
        for k, t in enumerate(ts):
            g = gap(dense)
            if g == "" and k + 1 < len(ts) and (t[-1].isalnum() or t[-1] in "_.") and (ts[k + 1][0].isalnum() or ts[k + 1][0] in "_."):
                g = " "
            s += t + g
        if r.random() < .2:
            s += r.choice(["// end", "/// end", "//! e\n", "\n\n// end\n\n"])
        out.append(one(s))
    return out


def mutants(quick, r, texts, n):
    """texts changed at random places: characters, tokens, lines, truncation, bytes that are not text"""
    out = []
    chars = [b"{", b"}", b"(", b")", b"[", b"]", b";", b":", b",", b".", b"=", b"-", b"+", b"\"", b"'", b"\\", b"/", b"//", b"///", b"//!", b"\n", b"\r", b"\r\n", b"\0", b"\xff", b"\xc3", b"\xc3\xa9", b"\xe2\x82\xac", b"\xef\xbb\xbf", b"\xf0\x9f\x98\x80",
             b"_", b"a", b"0", b"9", b"0x", b"e", b" ", b"\t", b"\x0b", b"\x0c", b"#", b"@", b"!", b"*", b"$", b"table", b"struct", b"enum", b"union", b"include", b"namespace", b"null", b"true", b"required", b"deprecated", b"int", b"string", b"\xed\xa0\x80", b"\xc0\x80", b"\xc2\xa0"]
    for _ in range(n):
        b = bytearray(bytes(r.choice(texts)))
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            p = r.randrange(len(b) + 1)
            c = r.random()
            if c < .35:
                b[p:p] = r.choice(chars)
            elif c < .6:
                b[p:p + r.randint(1, 3)] = r.choice(chars) if r.random() < .6 else b""
            elif c < .7:
                b = b[:p]
            elif c < .8:
                q = r.randrange(len(b) + 1)
                b[p:p] = b[min(p, q):max(p, q)][:40]
            elif c < .9:
                q = min(len(b), p + r.randint(1, 30))
                del b[p:q]
            elif b:
                b[p % len(b)] = r.randrange(256)
        out.append(one(bytes(b)))
    return out


def wild(quick, r, n):
    """complete random projects: many declarations of every kind, one file"""
    out = []
    for _ in range(n):
        names = ["D%d" % q for q in range(r.randint(2, 6))]
        kinds = [r.choice(["table", "table", "struct", "enum", "union"]) for _ in names]
        kinds[0] = "table"
        sc = ["bool", "byte", "ubyte", "short", "uint", "long", "float", "double", "int64", "uint16"]
        ds = []
        of = lambda *k: [x for x, y in zip(names, kinds) if y in k]

        def doc():
            return "".join("\n///%s\n" % r.choice([" one", " two words", "", "three"]) for _ in range(r.randint(1, 2))) if r.random() < .25 else ""

        for q, (nm, k) in enumerate(zip(names, kinds)):
            if k == "table":
                fs = []
                for z in range(r.randint(0, 6)):
                    el = r.choice([r.choice(sc), r.choice(sc), "string", r.choice(names)])
                    t = "[%s]" % el if r.random() < .3 else el
                    d = ""
                    a = []
                    if t in sc and r.random() < .4:
                        d = " = " + r.choice(["0", "1", "-1", "100", "null", "true", "1.5", "0x1F", "1_0"])
                    elif t == "string" and r.random() < .4:
                        d = " = " + r.choice(['"x"', "'it\\'s'", "null", '""'])
                    elif t[0] == "[" and r.random() < .3:
                        d = " = " + r.choice(["[]", "null"])
                    elif t in of("enum") and r.random() < .4:
                        d = " = " + r.choice(["A", "B", "null", "0", "1"])
                    if r.random() < .12:
                        a.append("required")
                    if r.random() < .1:
                        a.append("deprecated")
                    fs.append("%sf%d : %s%s%s;" % (doc(), z, t, d, " (%s)" % ", ".join(a) if a else ""))
                ds.append("%stable %s {%s}" % (doc(), nm, " ".join(fs)))
            elif k == "struct":
                cs = sc + of("enum") + of("struct")[:1]
                ds.append("%sstruct %s%s {%s}" % (doc(), nm, " (force_align: %d)" % r.choice([1, 4, 8, 16, 32]) if r.random() < .25 else "",
                                                  " ".join("%sf%d: %s;" % (doc(), z, r.choice(cs)) for z in range(r.randint(1, 5)))))
            elif k == "enum":
                ds.append("%senum %s : %s { %s }" % (doc(), nm, r.choice(sc[1:5] + ["int", "ulong"]), ", ".join(doc() + x + r.choice(["", "", " = %d" % r.randint(-2, 9)]) for x in "ABC"[:r.randint(1, 3)])))
            else:
                vs = of("table", "struct") + ["s: string", "t: string"]
                ds.append("%sunion %s { %s }" % (doc(), nm, ", ".join(doc() + r.choice(["", "v%d: " % z]) + x if ":" not in x else x for z, x in enumerate(r.sample(vs, min(len(vs), r.randint(1, 3)))))))
        r.shuffle(ds)
        ns = r.choice(["", "", "namespace a;\n", "namespace a.b;\n"])
        out.append(one(ns + "\n".join(ds) + r.choice(["", "\nroot_type D0;", "\n"])))
    return out
