------------------------------- MODULE Layout -------------------------------
(* What a schema prescribes: sizes, alignments, struct offsets, vtable slots,
   enum values and defaults.  A schema is the JSON form written by
   gen/schema.py: a record [n, d, root] whose d is a sequence of declarations.
   All operators take a schema S; LT(S) tabulates everything that the wire
   format needs.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

ScalarSize ==
    [u8 |-> 1, i8 |-> 1, bool |-> 1, u16 |-> 2, i16 |-> 2, u32 |-> 4, i32 |-> 4,
     f32 |-> 4, u64 |-> 8, i64 |-> 8, f64 |-> 8]
IsScalarName(n) == n \in DOMAIN ScalarSize
SignedInts == {"i8", "i16", "i32", "i64"}

Max2(a, b) == IF a >= b THEN a ELSE b
RECURSIVE MaxOf(_)
MaxOf(s) == IF s = <<>> THEN 0 ELSE Max2(Head(s), MaxOf(Tail(s)))
Zeros(n) == [i \in 1..n |-> 0]
AlignUp(x, a) == ((x + a - 1) \div a) * a

D(S, t) == S.d[t[2]]
Kind(S, t) ==
    CASE t[1] = "ref" -> S.d[t[2]].k
      [] t[1] = "str" -> "str"
      [] t[1] = "vec" -> "vec"
      [] OTHER -> "scalar"

-----------------------------------------------------------------------------
(* Little-endian byte arithmetic, so that 64-bit values never meet TLC's
   32-bit integers.                                                        *)
RECURSIVE IncFrom(_, _)
IncFrom(b, i) ==
    IF i > Len(b) THEN b
    ELSE IF b[i] = 255 THEN IncFrom([b EXCEPT ![i] = 0], i + 1)
    ELSE [b EXCEPT ![i] = @ + 1]
Inc(b) == IncFrom(b, 1)

(* sign or zero extension to n bytes *)
Extend(b, signed, n) ==
    LET fill == IF signed /\ b[Len(b)] >= 128 THEN 255 ELSE 0
    IN  [i \in 1..n |-> IF i <= Len(b) THEN b[i] ELSE fill]

-----------------------------------------------------------------------------
(* Enums: explicit value, or one more than the previous, the first being 0. *)
EnumBytes(e) == ScalarSize[e.base]
RECURSIVE EnumValsFrom(_, _, _)
EnumValsFrom(e, i, prev) ==
    IF i > Len(e.vars) THEN <<>>
    ELSE LET v == IF e.vars[i].v # <<>> THEN e.vars[i].v
                  ELSE IF i = 1 THEN Zeros(EnumBytes(e)) ELSE Inc(prev)
         IN  <<v>> \o EnumValsFrom(e, i + 1, v)
EnumVals(e) == EnumValsFrom(e, 1, <<>>)
EnumVal(e, name) ==
    LET i == CHOOSE i \in 1..Len(e.vars) : e.vars[i].n = name
    IN  EnumVals(e)[i]

-----------------------------------------------------------------------------
(* Struct layout: each field at the lowest aligned offset after the previous
   one; alignment is the strongest field's or the forced one, whichever is
   larger; the size is a multiple of the alignment.                         *)
RECURSIVE StructL(_, _)
InlineSA(S, t) ==   \* size and alignment of a field stored inline
    CASE Kind(S, t) = "scalar" -> [sz |-> ScalarSize[t[1]], al |-> ScalarSize[t[1]]]
      [] Kind(S, t) = "enum" -> [sz |-> EnumBytes(D(S, t)), al |-> EnumBytes(D(S, t))]
      [] Kind(S, t) = "struct" -> LET l == StructL(S, t[2]) IN [sz |-> l.sz, al |-> l.al]
      [] OTHER -> [sz |-> 4, al |-> 4]
StructL(S, j) ==
    LET d == S.d[j]
        sa == TLCEval([i \in 1..Len(d.f) |-> InlineSA(S, d.f[i].t)])
        off[i \in 1..Len(d.f)] ==
            IF i = 1 THEN 0 ELSE AlignUp(off[i - 1] + sa[i - 1].sz, sa[i].al)
        al == Max2(IF d.fa = 0 THEN 1 ELSE d.fa, MaxOf([i \in 1..Len(d.f) |-> sa[i].al]))
        end == IF d.f = <<>> THEN 0 ELSE off[Len(d.f)] + sa[Len(d.f)].sz
    IN  [sz |-> AlignUp(end, al), al |-> al, off |-> TLCEval([i \in 1..Len(d.f) |-> off[i]]), end |-> end]

-----------------------------------------------------------------------------
(* Vtable slots.  A union or a vector of unions takes two: its tag(s), then
   its value(s).  Slot(S, T, i) is the first of them.                       *)
TwoSlots(S, t) == Kind(S, t) = "union" \/ (t[1] = "vec" /\ Kind(S, t[2]) = "union")
Width(S, t) == IF TwoSlots(S, t) THEN 2 ELSE 1
SlotsOf(S, T) ==
    LET n == Len(T.f)
        seq[i \in 1..n] == IF i = 1 THEN 0 ELSE seq[i - 1] + Width(S, T.f[i - 1].t)
    IN  TLCEval([i \in 1..n |-> IF T.f[i].id >= 0
                                THEN T.f[i].id + 1 - Width(S, T.f[i].t)
                                ELSE seq[i]])
NSlots(S, T) ==
    LET s == SlotsOf(S, T)
    IN  MaxOf([i \in 1..Len(T.f) |-> s[i] + Width(S, T.f[i].t)])

-----------------------------------------------------------------------------
(* Presence: "req", "opt" (absent reads as none) or "def" with the value an
   absent field reads as.                                                   *)
Presence(S, f) ==
    IF f.o = "req" THEN "req"
    ELSE IF f.o = "null" THEN "opt"
    ELSE IF f.d # <<>> THEN "def"
    ELSE IF Kind(S, f.t) \in {"scalar", "enum"} THEN "def" ELSE "opt"
DefaultOf(S, f) ==
    IF f.o # "" \/ Presence(S, f) # "def" THEN <<"none">>
    ELSE IF f.d = <<>> THEN <<"sc", Zeros(InlineSA(S, f.t).sz)>>
    ELSE IF f.d[1] = "ev" THEN <<"sc", EnumVal(D(S, f.t), f.d[2])>>
    ELSE f.d

-----------------------------------------------------------------------------
(* The alignment a table field is forced to *)
Forced(f) == IF "fa" \in DOMAIN f THEN f.fa ELSE 1

-----------------------------------------------------------------------------
(* Everything tabulated once per schema. *)
DeclL(S, j) ==
    LET d == S.d[j] IN
    CASE d.k = "enum" ->
            [k |-> "enum", n |-> d.n, sz |-> EnumBytes(d), signed |-> d.base \in SignedInts, vals |-> EnumVals(d)]
      [] d.k = "struct" ->
            LET l == StructL(S, j) IN
            [k |-> "struct", n |-> d.n, sz |-> l.sz, al |-> l.al, end |-> l.end,
             f |-> TLCEval([i \in 1..Len(d.f) |->
                [n |-> d.f[i].n, t |-> d.f[i].t, off |-> l.off[i], kind |-> Kind(S, d.f[i].t),
                 sz |-> InlineSA(S, d.f[i].t).sz, al |-> InlineSA(S, d.f[i].t).al]])]
      [] d.k = "union" ->
            [k |-> "union", n |-> d.n, v |-> TLCEval([i \in 1..Len(d.v) |-> d.v[i].t])]
      [] d.k = "table" ->
            LET s == SlotsOf(S, d) IN
            [k |-> "table", n |-> d.n, slots |-> NSlots(S, d),
             f |-> TLCEval([i \in 1..Len(d.f) |->
                [n |-> d.f[i].n, t |-> d.f[i].t, slot |-> s[i], dep |-> d.f[i].dep,
                 kind |-> Kind(S, d.f[i].t), two |-> TwoSlots(S, d.f[i].t),
                 sz |-> InlineSA(S, d.f[i].t).sz, al |-> Max2(Forced(d.f[i]), InlineSA(S, d.f[i].t).al),
                 p |-> Presence(S, d.f[i]), def |-> DefaultOf(S, d.f[i])]])]
LT(S) == [n |-> S.n, root |-> S.root, d |-> TLCEval([j \in 1..Len(S.d) |-> TLCEval(DeclL(S, j))])]

(* Sizes and kinds from the table *)
TK(L, t) == CASE t[1] = "ref" -> L.d[t[2]].k [] t[1] = "str" -> "str" [] t[1] = "vec" -> "vec" [] OTHER -> "scalar"
TSz(L, t) == CASE TK(L, t) = "scalar" -> ScalarSize[t[1]]
               [] TK(L, t) \in {"enum", "struct"} -> L.d[t[2]].sz
               [] OTHER -> 4
TAl(L, t) == CASE TK(L, t) = "scalar" -> ScalarSize[t[1]]
               [] TK(L, t) = "enum" -> L.d[t[2]].sz
               [] TK(L, t) = "struct" -> L.d[t[2]].al
               [] OTHER -> 4
=============================================================================
