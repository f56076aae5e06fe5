-------------------------------- MODULE Wire --------------------------------
(* The FlatBuffers wire format as planus reads it.  View(cx, ...) is the exact
   result every accessor of a reader has on the bytes cx.b: a value or an
   error with its kind, type, accessor and position.
   cx = [b: bytes, L: schema table, k: elements shown per vector,
         mode: "get" | "iter", xv: extra-validation feature,
         dev: TRUE for the recorded deviation of planus from the format
              (a vtable may not lie before the slice the table is read from)]
   Positions are 0-based.                                                    *)
EXTENDS Layout

Big == 1073741824
Bad(kind, det) == <<"bad", kind, det>>
Ok(v) == <<"ok", v>>
IsBad(r) == r[1] = "bad"
Loc(r, type, method, pos) ==
    IF IsBad(r) THEN <<"err", r[2], r[3], type, method, pos>> ELSE r[2]

U8(b, p) == b[p + 1]
U16(b, p) == b[p + 1] + 256 * b[p + 2]
U32(b, p) == IF b[p + 4] >= 64 THEN Big
             ELSE b[p + 1] + 256 * b[p + 2] + 65536 * b[p + 3] + 16777216 * b[p + 4]
I32(b, p) ==    \* saturating at +-Big, which no position can reach
    IF b[p + 4] < 128 THEN U32(b, p)
    ELSE IF b[p + 4] < 192 THEN -Big
    ELSE -((255 - b[p + 1]) + 256 * (255 - b[p + 2]) + 65536 * (255 - b[p + 3])
            + 16777216 * (255 - b[p + 4]) + 1)
Bytes(b, p, n) == SubSeq(b, p + 1, p + n)
Fits(b, p, n) == p + n <= Len(b)

-----------------------------------------------------------------------------
(* UTF-8: index of the first byte of the first invalid sequence, or -1. *)
Cont(b, q, end) == q < end /\ U8(b, q) \in 128..191
RECURSIVE Utf8(_, _, _)
Utf8(b, q, end) ==
    IF q >= end THEN -1
    ELSE LET c == U8(b, q)
             in(lo, hi) == q + 1 < end /\ U8(b, q + 1) \in lo..hi
         IN
         CASE c < 128 -> Utf8(b, q + 1, end)
           [] c \in 194..223 /\ in(128, 191) -> Utf8(b, q + 2, end)
           [] c = 224 /\ in(160, 191) /\ Cont(b, q + 2, end) -> Utf8(b, q + 3, end)
           [] c \in (225..236) \cup {238, 239} /\ in(128, 191) /\ Cont(b, q + 2, end) -> Utf8(b, q + 3, end)
           [] c = 237 /\ in(128, 159) /\ Cont(b, q + 2, end) -> Utf8(b, q + 3, end)
           [] c = 240 /\ in(144, 191) /\ Cont(b, q + 2, end) /\ Cont(b, q + 3, end) -> Utf8(b, q + 4, end)
           [] c \in 241..243 /\ in(128, 191) /\ Cont(b, q + 2, end) /\ Cont(b, q + 3, end) -> Utf8(b, q + 4, end)
           [] c = 244 /\ in(128, 143) /\ Cont(b, q + 2, end) /\ Cont(b, q + 3, end) -> Utf8(b, q + 4, end)
           [] OTHER -> q

-----------------------------------------------------------------------------
(* Indirection *)

(* offset field at p -> position of the length prefix of a string or vector *)
ArrayAt(b, p) ==
    IF ~Fits(b, p, 4) THEN Bad("InvalidOffset", <<>>)
    ELSE LET o == p + U32(b, p) IN
         IF ~Fits(b, o, 4) THEN Bad("InvalidOffset", <<>>) ELSE Ok(o)

StrAt(cx, p) ==
    LET a == ArrayAt(cx.b, p) IN
    IF IsBad(a) THEN a
    ELSE LET o == a[2]
             n == U32(cx.b, o)
             inb == n <= Len(cx.b) - (o + 4)
         IN  IF cx.xv /\ ~(n < Len(cx.b) - (o + 4) /\ U8(cx.b, o + 4 + n) = 0)
             THEN Bad("MissingNullTerminator", <<>>)
             ELSE IF ~inb THEN Bad("InvalidLength", <<>>)
             ELSE LET u == Utf8(cx.b, o + 4, o + 4 + n) IN
                  IF u >= 0 THEN Bad("InvalidUtf8", <<u - (o + 4)>>)
                  ELSE Ok(<<"str", Bytes(cx.b, o + 4, n)>>)

(* offset field at p, read from a slice that starts at base *)
TableAt(cx, base, p) ==
    LET b == cx.b IN
    IF ~Fits(b, p, 4) THEN Bad("InvalidOffset", <<>>)
    ELSE LET o == p + U32(b, p) IN
    IF ~Fits(b, o, 4) THEN Bad("InvalidOffset", <<>>)
    ELSE LET vt == o - I32(b, o) IN
    IF vt < (IF cx.dev THEN base ELSE 0) \/ ~Fits(b, vt, 2) THEN Bad("InvalidOffset", <<>>)
    ELSE LET size == U16(b, vt) IN
    IF size < 4 \/ size % 2 = 1 THEN Bad("InvalidVtableLength", <<size>>)
    ELSE IF ~Fits(b, vt, size) THEN Bad("InvalidLength", <<>>)
    ELSE Ok([o |-> o, vt |-> vt, size |-> size])

(* offset stored in a vtable slot, 0 when absent *)
HasSlot(t, s) == 4 + 2 * (s + 1) <= t.size
SlotOff(b, t, s) == IF HasSlot(t, s) THEN U16(b, t.vt + 4 + 2 * s) ELSE 0

-----------------------------------------------------------------------------
(* Values.  Deep(d) bounds the nesting of tables shown. *)
RECURSIVE TabView(_, _, _, _)
RECURSIVE InlineView(_, _, _, _, _)
RECURSIVE StructView(_, _, _)
RECURSIVE UnionAt(_, _, _, _, _, _)
RECURSIVE VecView(_, _, _, _)

EnumRes(e, raw) ==
    IF \E i \in 1..Len(e.vals) : e.vals[i] = raw THEN Ok(<<"sc", raw>>)
    ELSE Bad("UnknownEnumTag", Extend(raw, e.signed, 9))

ScalarBytes(t, raw) == IF t[1] = "bool" THEN <<IF raw[1] # 0 THEN 1 ELSE 0>> ELSE raw

StructView(cx, j, p) ==
    LET s == cx.L.d[j]
        fld(i) ==
            LET f == s.f[i] IN
            CASE f.kind = "scalar" -> <<"sc", ScalarBytes(f.t, Bytes(cx.b, p + f.off, f.sz))>>
              [] f.kind = "enum" -> Loc(EnumRes(cx.L.d[f.t[2]], Bytes(cx.b, p + f.off, f.sz)),
                                        s.n \o "Ref", f.n, p + f.off)
              [] f.kind = "struct" -> StructView(cx, f.t[2], p + f.off)
    IN  <<"st", [i \in 1..Len(s.f) |-> fld(i)]>>

(* a field of type t stored at p, read from a slice starting at base *)
InlineView(cx, base, t, p, d) ==
    LET k == TK(cx.L, t) IN
    CASE k = "scalar" ->
            IF ~Fits(cx.b, p, TSz(cx.L, t)) THEN Bad("InvalidOffset", <<>>)
            ELSE Ok(<<"sc", ScalarBytes(t, Bytes(cx.b, p, TSz(cx.L, t)))>>)
      [] k = "enum" ->
            IF ~Fits(cx.b, p, TSz(cx.L, t)) THEN Bad("InvalidOffset", <<>>)
            ELSE EnumRes(cx.L.d[t[2]], Bytes(cx.b, p, TSz(cx.L, t)))
      [] k = "struct" ->
            IF ~Fits(cx.b, p, TSz(cx.L, t)) THEN Bad("InvalidOffset", <<>>)
            ELSE Ok(StructView(cx, t[2], p))
      [] k = "str" -> StrAt(cx, p)
      [] k = "table" ->
            LET r == TableAt(cx, base, p) IN
            IF IsBad(r) THEN r ELSE Ok(TabView(cx, t[2], r[2], d))
      [] k = "vec" ->
            LET a == ArrayAt(cx.b, p) IN
            IF IsBad(a) THEN a
            ELSE LET n == U32(cx.b, a[2])
                     st == TSz(cx.L, t[2])
                     room == (Len(cx.b) - (a[2] + 4)) \div st
                 IN  IF n > room THEN Bad("InvalidLength", <<>>)
                     ELSE Ok(VecView(cx, t[2], [at |-> a[2] + 4, n |-> n], d))

(* the i-th element (1-based) of a vector whose elements start at v.at *)
VecView(cx, et, v, d) ==
    LET k == TK(cx.L, et)
        st == TSz(cx.L, et)
        el(i) ==
            LET p == v.at + (i - 1) * st
                base == IF cx.mode = "iter" THEN p ELSE v.at
                r == InlineView(cx, base, et, p, d)
                ty == IF k = "str" THEN "str" ELSE IF k \in {"enum", "struct"} THEN cx.L.d[et[2]].n
                      ELSE IF k = "table" THEN cx.L.d[et[2]].n \o "Ref" ELSE ""
            IN  IF k = "enum" THEN Loc(r, ty, "VectorRead::from_buffer", base)
                ELSE Loc(r, "[" \o ty \o "]", "get", base)
    IN  <<"vec", v.n, [i \in 1..(IF v.n < cx.k THEN v.n ELSE cx.k) |-> el(i)]>>

(* union value: offset field at p, tag known to be nonzero *)
UnionAt(cx, j, base, tag, p, d) ==
    LET u == cx.L.d[j] IN
    IF tag > Len(u.v) THEN Bad("UnknownUnionTag", <<tag>>)
    ELSE LET t == u.v[tag]
             r == IF TK(cx.L, t) = "struct"
                  THEN IF ~Fits(cx.b, p, 4) THEN Bad("InvalidOffset", <<>>)
                       ELSE InlineView(cx, base, t, p + U32(cx.b, p), d)
                  ELSE InlineView(cx, base, t, p, d)
         IN  IF IsBad(r) THEN r ELSE Ok(<<"un", tag, r[2]>>)

None == <<"ok", <<"none">>>>

(* accessor of field f of the table t = [o, vt, size] *)
FieldRes(cx, f, t, d) ==
    LET b == cx.b
        so == SlotOff(b, t, f.slot)
        vo == SlotOff(b, t, f.slot + 1)
        both == HasSlot(t, f.slot + 1)
    IN
    IF f.kind = "union" THEN
        IF both THEN
            IF ~Fits(b, t.o + so, 1) THEN Bad("InvalidOffset", <<>>)
            ELSE LET tag == U8(b, t.o + so) IN
                 IF so # 0 /\ vo # 0 /\ tag # 0 THEN UnionAt(cx, f.t[2], t.o, tag, t.o + vo, d) ELSE None
        ELSE IF HasSlot(t, f.slot) THEN Bad("InvalidVtableLength", <<t.size>>)
        ELSE None
    ELSE IF f.two THEN
        IF ~both \/ (so = 0 /\ vo = 0) THEN None
        ELSE IF so = 0 \/ vo = 0 THEN Bad("MissingRequired", <<>>)
        ELSE LET ta == ArrayAt(b, t.o + so)
                 va == ArrayAt(b, t.o + vo)
             IN  IF IsBad(ta) THEN ta
                 ELSE IF IsBad(va) THEN va
                 ELSE LET tn == U32(b, ta[2])
                          vn == U32(b, va[2])
                          ts == ta[2] + 4
                          vs == va[2] + 4
                          \* in iteration both slices advance by one element
                          el(i) == LET tag == U8(b, ts + i - 1)
                                       p == vs + 4 * (i - 1)
                                       base == IF cx.mode = "iter" THEN p ELSE vs
                                   IN  Loc(UnionAt(cx, f.t[2][2], base, tag, p, d),
                                           "[" \o cx.L.d[f.t[2][2]].n \o "Ref]", "get", base)
                          elz(i) == IF U8(b, ts + i - 1) = 0
                                    THEN LET p == vs + 4 * (i - 1) IN
                                         Loc(Bad("UnknownUnionTag", <<0>>), "[" \o cx.L.d[f.t[2][2]].n \o "Ref]",
                                             "get", IF cx.mode = "iter" THEN p ELSE vs)
                                    ELSE el(i)
                      IN  IF tn > Len(b) - ts THEN Bad("InvalidLength", <<>>)
                          ELSE IF vn > (Len(b) - vs) \div 4 THEN Bad("InvalidLength", <<>>)
                          ELSE IF tn # vn THEN Bad("UnionVectorLengthsMismatched", <<tn, vn>>)
                          ELSE Ok(<<"vec", tn, [i \in 1..(IF tn < cx.k THEN tn ELSE cx.k) |-> elz(i)]>>)
    ELSE IF so = 0 THEN None
    ELSE InlineView(cx, t.o, f.t, t.o + so, d)

FieldView(cx, T, f, t, d) ==
    LET r == FieldRes(cx, f, t, d) IN
    IF IsBad(r) THEN Loc(r, T.n, f.n, t.o)
    ELSE IF r[2][1] # "none" THEN r[2]
    ELSE IF f.p = "req" THEN Loc(Bad("MissingRequired", <<>>), T.n, f.n, t.o)
    ELSE f.def

Shown(T) == SelectSeq(T.f, LAMBDA f : ~f.dep)
TabView(cx, j, t, d) ==
    IF d = 0 THEN <<"deep">>
    ELSE LET T == cx.L.d[j]
             fs == Shown(T)
         IN  <<"tab", j, [i \in 1..Len(fs) |-> FieldView(cx, T, fs[i], t, d - 1)]>>

RootView(cx, j, d) ==
    LET r == TableAt(cx, 0, 0) IN
    IF IsBad(r) THEN Loc(r, "[" \o cx.L.d[j].n \o "Ref]", "read_as_root", 0)
    ELSE TabView(cx, j, r[2], d)

-----------------------------------------------------------------------------
(* Errors contained in a view; converting to an owned value fails exactly when
   there is one, and then reports one of them.                               *)
RECURSIVE Errs(_)
Errs(v) ==
    CASE v[1] = "err" -> {v}
      [] v[1] = "tab" -> UNION {Errs(v[3][i]) : i \in 1..Len(v[3])}
      [] v[1] = "vec" -> UNION {Errs(v[3][i]) : i \in 1..Len(v[3])}
      [] v[1] = "st" -> UNION {Errs(v[2][i]) : i \in 1..Len(v[2])}
      [] v[1] = "un" -> Errs(v[3])
      [] OTHER -> {}
RECURSIVE Cut(_)     \* not everything is shown
Cut(v) ==
    CASE v[1] = "deep" -> TRUE
      [] v[1] = "tab" -> \E i \in 1..Len(v[3]) : Cut(v[3][i])
      [] v[1] = "vec" -> v[2] > Len(v[3]) \/ \E i \in 1..Len(v[3]) : Cut(v[3][i])
      [] v[1] = "un" -> Cut(v[3])
      [] OTHER -> FALSE
=============================================================================
