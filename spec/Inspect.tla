------------------------------ MODULE Inspect ------------------------------
(* What inspecting a well-formed buffer shows.  An object is a record
   [k, o, j, t, q]: kind, position, declaration, element type of a vector,
   position of the tags of a union vector (-1 if there are none).
   Kids(cx, x) is the ordered sequence of labelled parts of an object stored
   inside it; Tree(cx, lb, x) the whole of it; an "off" object points to
   another one, which is shown on its own.  Objs(cx, j) is everything
   reachable from the root.  cx = [b, L, S].                                 *)
EXTENDS Wire

Ob(k, o, j, t, q) == [k |-> k, o |-> o, j |-> j, t |-> t, q |-> q]
Nil == <<>>

-----------------------------------------------------------------------------
Name(cx, j) == cx.S.d[j].n
VtAt(b, o) == o - I32(b, o)
VtSlots(b, vt) == (U16(b, vt) - 4) \div 2
SlotAt(b, vt, s) == IF s < VtSlots(b, vt) THEN U16(b, vt + 4 + 2 * s) ELSE 0

(* the field that owns vtable slot s: <<number, is it the tag>> *)
Owner(T, s) ==
    LET q == {q \in 1..Len(T.f) : s = T.f[q].slot \/ (T.f[q].two /\ s = T.f[q].slot + 1)}
    IN  IF q = {} THEN Nil
        ELSE LET x == CHOOSE x \in q : TRUE IN <<x, T.f[x].two /\ s = T.f[x].slot>>

(* where the offset object x leads *)
Target(cx, x) ==
    LET at == x.o + U32(cx.b, x.o) IN
    CASE x.t[1] = "vtable" -> Ob("vtable", x.o - I32(cx.b, x.o), x.j, Nil, -1)
      [] x.t[1] = "table" -> Ob("table", at, x.j, Nil, -1)
      [] x.t[1] = "struct" -> Ob("struct", at, x.j, Nil, -1)
      [] x.t[1] = "str" -> Ob("str", at, 0, Nil, -1)
      [] x.t[1] = "vec" -> Ob("vec", at, 0, x.t[2], -1)
      [] x.t[1] = "utags" -> Ob("utags", at, x.j, Nil, -1)
      [] x.t[1] = "uvals" -> Ob("uvals", at, x.j, Nil, x.q + U32(cx.b, x.q))

Off(o, what, j, q) == Ob("off", o, j, what, q)
OffTo(cx, t, p) ==   \* offset field at p to an object of type t
    CASE TK(cx.L, t) = "str" -> Off(p, <<"str">>, 0, -1)
      [] TK(cx.L, t) = "vec" -> Off(p, <<"vec", t[2]>>, 0, -1)
      [] OTHER -> Off(p, <<TK(cx.L, t)>>, t[2], -1)

(* a value of type t stored at p itself *)
InlineOb(cx, t, p) ==
    CASE TK(cx.L, t) \in {"struct", "enum"} -> Ob(TK(cx.L, t), p, t[2], Nil, -1)
      [] TK(cx.L, t) \in {"str", "vec", "table"} -> OffTo(cx, t, p)
      [] t[1] = "bool" -> Ob("bool", p, 0, t, -1)
      [] t[1] \in {"f32", "f64"} -> Ob("float", p, 0, t, -1)
      [] OTHER -> Ob("int", p, 0, t, -1)

Length(o) == <<"length", Ob("int", o, 0, <<"u32">>, -1)>>
Num(n) == ToString(n)

Kids(cx, x) ==
    LET b == cx.b IN
    CASE x.k = "vtable" ->
            LET T == cx.L.d[x.j]
                lab(e) ==
                    IF e = 1 THEN "#vtable_size" ELSE IF e = 2 THEN "#table_size"
                    ELSE LET w == Owner(T, e - 3) IN
                         IF w = Nil THEN "offset[" \o Num(e - 3) \o "]"
                         ELSE LET f == T.f[w[1]] IN
                              IF w[2] THEN "offset[union_tag[" \o f.n \o "]]"
                              ELSE IF f.two THEN "offset[union[" \o f.n \o "]]"
                              ELSE "offset[" \o f.n \o "]"
            IN  [e \in 1..(U16(b, x.o) \div 2) |-> <<lab(e), Ob("int", x.o + 2 * (e - 1), 0, <<"u16">>, -1)>>]
      [] x.k = "table" ->
            LET T == cx.L.d[x.j]
                vt == VtAt(b, x.o)
                at(s) == x.o + SlotAt(b, vt, s)
                one(s) ==
                    LET w == Owner(T, s) IN
                    IF SlotAt(b, vt, s) = 0 \/ w = Nil THEN <<>>
                    ELSE LET f == T.f[w[1]] IN
                         IF ~f.two THEN <<<<f.n, InlineOb(cx, f.t, at(s))>>>>
                         ELSE IF f.kind = "union"
                         THEN IF w[2] THEN <<<<"union_key[" \o f.n \o "]", Ob("tag", at(s), f.t[2], Nil, -1)>>>>
                              ELSE <<<<f.n, Ob("union", at(s), f.t[2], Nil, at(s - 1))>>>>
                         ELSE IF w[2] THEN <<<<"union_key[" \o f.n \o "]", Off(at(s), <<"utags">>, f.t[2][2], -1)>>>>
                              ELSE <<<<f.n, Off(at(s), <<"uvals">>, f.t[2][2], at(s - 1))>>>>
                all[s \in 0..VtSlots(b, vt)] == IF s = 0 THEN <<>> ELSE all[s - 1] \o one(s - 1)
            IN  <<<<"#vtable", Off(x.o, <<"vtable">>, x.j, -1)>>>> \o all[VtSlots(b, vt)]
      [] x.k = "struct" ->
            LET s == cx.L.d[x.j] IN
            [q \in 1..Len(s.f) |-> <<s.f[q].n, InlineOb(cx, s.f[q].t, x.o + s.f[q].off)>>]
      [] x.k = "union" ->
            LET tag == U8(b, x.q)
                u == cx.L.d[x.j]
            IN  IF tag \in 1..Len(u.v) THEN <<<<"", OffTo(cx, u.v[tag], x.o)>>>>
                ELSE <<<<"unknown offset", Ob("int", x.o, 0, <<"u32">>, -1)>>>>
      [] x.k = "vec" ->
            <<Length(x.o)>> \o [e \in 1..U32(b, x.o) |->
                <<Num(e - 1), InlineOb(cx, x.t, x.o + 4 + (e - 1) * TSz(cx.L, x.t))>>]
      [] x.k = "str" -> <<Length(x.o)>>
      [] x.k = "utags" ->
            <<Length(x.o)>> \o [e \in 1..U32(b, x.o) |-> <<Num(e - 1), Ob("tag", x.o + 4 + e - 1, x.j, Nil, -1)>>]
      [] x.k = "uvals" ->
            <<Length(x.o)>> \o [e \in 1..U32(b, x.o) |->
                <<Num(e - 1), Ob("union", x.o + 4 + 4 * (e - 1), x.j, Nil, x.q + 4 + e - 1)>>]
      [] OTHER -> <<>>

(* bytes of the object itself, before its parts *)
Own(cx, x) ==
    CASE x.k \in {"off", "table", "union"} -> 4
      [] x.k \in {"int", "float"} -> ScalarSize[x.t[1]]
      [] x.k \in {"bool", "tag"} -> 1
      [] x.k \in {"enum", "struct"} -> cx.L.d[x.j].sz
      [] x.k = "vtable" -> U16(cx.b, x.o)
      [] x.k = "str" -> 4 + U32(cx.b, x.o)
      [] OTHER -> 0

RECURSIVE Tree(_, _, _)
RECURSIVE HiOf(_)
HiOf(s) == IF s = <<>> THEN 0 ELSE Max2(Head(s).hi, HiOf(Tail(s)))
RECURSIVE LoOf(_, _)
LoOf(m, s) == IF s = <<>> THEN m ELSE LoOf(IF Head(s).lo < m THEN Head(s).lo ELSE m, Tail(s))
Tree(cx, lb, x) ==
    LET ks == Kids(cx, x)
        kids == [q \in 1..Len(ks) |-> Tree(cx, ks[q][1], ks[q][2])]
    IN  [lb |-> lb, x |-> x, kids |-> kids, lo |-> LoOf(x.o, kids), hi |-> Max2(x.o + Own(cx, x), HiOf(kids))]

RECURSIVE Offs(_)
Offs(t) == (IF t.x.k = "off" THEN {t.x} ELSE {}) \cup UNION {Offs(t.kids[q]) : q \in 1..Len(t.kids)}

(* all objects reachable from x, as trees *)
RECURSIVE Close(_, _, _)
Close(cx, todo, done) ==
    IF todo = {} THEN done
    ELSE LET ts == {Tree(cx, "", x) : x \in todo}
             seen == {t.x : t \in done} \cup todo
         IN  Close(cx, {Target(cx, y) : y \in UNION {Offs(t) : t \in ts}} \ seen, done \cup ts)
RootOb(j) == Off(0, <<"table">>, j, -1)
Objs(cx, j) == Close(cx, {RootOb(j)}, {})

-----------------------------------------------------------------------------
(* Lines: one per part in order, and a closing one after the parts of any. *)
RECURSIVE Lines(_, _, _, _)
RECURSIVE LinesOf(_, _, _, _)
Lines(t, depth, par, at) ==
    LET inner == LinesOf(t.kids, depth + 1, at, at + 1)
        end == IF t.kids = <<>> THEN at ELSE at + 1 + Len(inner)
        me == [t |-> t, ind |-> 2 * depth, ls |-> at, le |-> end, par |-> par, close |-> FALSE]
    IN  <<me>> \o inner \o (IF t.kids = <<>> THEN <<>> ELSE <<[me EXCEPT !.close = TRUE]>>)
LinesOf(s, depth, par, at) ==
    IF s = <<>> THEN <<>>
    ELSE LET h == Lines(Head(s), depth, par, at) IN h \o LinesOf(Tail(s), depth, par, at + Len(h))
AllLines(t) == Lines(t, 0, 0, 0)

-----------------------------------------------------------------------------
(* What is printed for an object: <<"is", text>>, or a value that the text
   must denote.                                                             *)
NaN(t, v) ==
    LET n == Len(v)
        top == v[n] % 128
        m == IF n = 4 THEN v[3] % 128 ELSE v[7] % 16
        ex == top = 127 /\ (IF n = 4 THEN v[3] >= 128 ELSE v[7] >= 240)
    IN  ex /\ (m # 0 \/ \E q \in 1..(n - 2) : v[q] # 0)

RECURSIVE Shows(_, _)
Shows(cx, x) ==
    LET b == cx.b
        variant(tag) == IF tag \in 1..Len(cx.S.d[x.j].v)
                        THEN Name(cx, x.j) \o "::" \o cx.S.d[x.j].v[tag].n
                        ELSE Name(cx, x.j) \o "::UnknownVariant(" \o Num(tag) \o ")"
        count == Num(U32(b, x.o)) \o "]"
    IN
    CASE x.k = "off" -> Shows(cx, Target(cx, x))
      [] x.k = "vtable" -> <<"is", "vtable " \o Name(cx, x.j)>>
      [] x.k \in {"table", "struct"} -> <<"is", Name(cx, x.j)>>
      [] x.k = "tag" -> <<"is", variant(U8(b, x.o))>>
      [] x.k = "union" -> <<"is", variant(U8(b, x.q))>>
      [] x.k \in {"utags", "uvals"} -> <<"is", "[" \o Name(cx, x.j) \o "; " \o count>>
      [] x.k = "vec" -> IF x.t[1] = "ref" THEN <<"is", "[" \o Name(cx, x.t[2]) \o "; " \o count>> ELSE <<"count", count>>
      [] x.k = "bool" -> <<"is", IF U8(b, x.o) # 0 THEN "true" ELSE "false">>
      [] x.k = "enum" ->
            LET raw == Bytes(b, x.o, cx.L.d[x.j].sz)
                hit == {q \in 1..Len(cx.L.d[x.j].vals) : cx.L.d[x.j].vals[q] = raw}
            IN  IF hit # {} THEN <<"is", Name(cx, x.j) \o "::" \o cx.S.d[x.j].vars[CHOOSE q \in hit : TRUE].n>>
                ELSE <<"value", raw, Name(cx, x.j) \o "::UnknownTag">>
      [] x.k = "str" -> <<"value", Bytes(b, x.o + 4, U32(b, x.o)), " (len=" \o Num(U32(b, x.o)) \o ")">>
      [] x.k = "float" -> LET v == Bytes(b, x.o, Own(cx, x)) IN IF NaN(x.t, v) THEN <<"is", "NaN">> ELSE <<"value", v, "">>
      [] x.k = "int" -> <<"value", Bytes(b, x.o, Own(cx, x)), "">>

NameOk(cx, x, g) ==
    LET w == Shows(cx, x) IN
    CASE w[1] = "is" -> g.nm = w[2]
      [] w[1] = "count" -> g.rest = w[2]
      [] w[1] = "value" -> g.val = w[2] /\ g.rest = w[3]

Braces == {"vtable", "table", "struct", "vec", "utags", "uvals"}
LineText(l, nm) ==
    IF l.close THEN "}"
    ELSE IF l.t.x.k = "off" /\ l.t.x.t[1] = "vtable" THEN "#vtable"
    ELSE (IF l.t.lb = "" THEN "" ELSE l.t.lb \o ": ") \o nm
         \o (IF l.t.kids # <<>> THEN " {" ELSE IF l.t.x.k \in Braces THEN " {}" ELSE "")

Id(cx, x) == <<x.k, x.o, IF x.k \in {"vtable", "table", "struct", "tag", "union", "enum"} THEN Name(cx, x.j) ELSE "">>

(* why an observed line g does not show line l *)
LineWhy(cx, l, g) ==
    LET x == l.t.x IN
    IF <<g.k, g.o, g.n>> # Id(cx, x) THEN <<"part", Id(cx, x), "shown as", g.k, g.o, g.n>>
    ELSE IF g.s # l.t.lo \/ g.e # l.t.hi THEN <<"extent", Id(cx, x), l.t.lo, l.t.hi, "shown", g.s, g.e>>
    ELSE IF g.ind # l.ind \/ g.ls # l.ls \/ g.le # l.le \/ g.par # l.par THEN <<"place of line", Id(cx, x), l.ind, l.ls, l.le, l.par>>
    ELSE IF x.k = "off" /\ g.to # Id(cx, Target(cx, x)) THEN <<"leads to", Id(cx, Target(cx, x)), "shown", g.to>>
    ELSE IF ~l.close /\ ~NameOk(cx, x, g) THEN <<"value", Id(cx, x), Shows(cx, x), "shown", g.nm>>
    ELSE IF g.tx # LineText(l, g.nm) THEN <<"text", LineText(l, g.nm), "shown", g.tx>>
    ELSE Nil

ObjWhy(cx, t, g) ==
    LET ls == AllLines(t) IN
    IF g.lo # t.lo \/ g.hi # t.hi THEN <<"extent of object", Id(cx, t.x), t.lo, t.hi, "shown", g.lo, g.hi>>
    ELSE IF Len(ls) # Len(g.lines) THEN <<"lines of", Id(cx, t.x), Len(ls), "shown", Len(g.lines)>>
    ELSE LET bad == {q \in 1..Len(ls) : LineWhy(cx, ls[q], g.lines[q]) # Nil}
         IN  IF bad = {} THEN Nil ELSE LineWhy(cx, ls[CHOOSE q \in bad : TRUE], g.lines[CHOOSE q \in bad : TRUE])

-----------------------------------------------------------------------------
(* Interpretations of a byte: for every object containing it, the chains of
   parts down to one none of whose parts contains it.                       *)
In(p, t) == t.lo <= p /\ p < t.hi
RECURSIVE Chains(_, _, _)
Chains(t, at, p) ==   \* t starts at line at; sequences of lines
    IF ~In(p, t) THEN {}
    ELSE LET start[q \in 1..Len(t.kids)] ==
                IF q = 1 THEN at + 1 ELSE start[q - 1] + Len(Lines(t.kids[q - 1], 0, 0, 0))
             sub == UNION {Chains(t.kids[q], start[q], p) : q \in {q \in 1..Len(t.kids) : In(p, t.kids[q])}}
         IN  IF sub = {} THEN {<<at>>} ELSE {<<at>> \o c : c \in sub}

=============================================================================
