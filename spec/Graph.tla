------------------------------- MODULE Graph -------------------------------
(* What the graph of a project shows (planus dot): one node for every declaration,
   and one edge for every reference to another declaration.

   A node is [title, rows]: the text of its first cell and the rows below, each row
   a sequence of cells <<port, text>> (port "" when the cell has none).  The
   references of a node are <<port, title of the node referred to>>.

   Mode cells are given as a predicate on the text (Shows) since a number has more
   than one spelling.                                                         *)
EXTENDS Schema

-----------------------------------------------------------------------------
(* Texts as bytes *)
Letters == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Smalls == "abcdefghijklmnopqrstuvwxyz"
Others == " (),/0123456789:="      \* and the two brackets
OtherCode == <<32, 40, 41, 44, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 61>>
Code(s, c) == CHOOSE k \in 1..Len(s) : SubSeq(s, k, k) = c
Chars(s) == {SubSeq(s, k, k) : k \in 1..Len(s)}
CodeTab == TLCEval([c \in Chars(Letters) |-> 64 + Code(Letters, c)]
                @@ [c \in Chars(Smalls) |-> 96 + Code(Smalls, c)]
                @@ [c \in Chars(Others) |-> OtherCode[Code(Others, c)]]
                @@ [c \in {"[", "]"} |-> IF c = "[" THEN 91 ELSE 93])
T(s) == [k \in 1..Len(s) |-> CodeTab[SubSeq(s, k, k)]]
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE Dotted(_, _)
Dotted(p, k) == IF k > Len(p) THEN <<>> ELSE (IF k = 1 THEN <<>> ELSE <<46>>) \o p[k] \o Dotted(p, k + 1)

-----------------------------------------------------------------------------
(* Names *)
Spelled == [i8 |-> "int8", u8 |-> "uint8", i16 |-> "int16", u16 |-> "uint16", i32 |-> "int32", u32 |-> "uint32",
            i64 |-> "int64", u64 |-> "uint64", f32 |-> "float32", f64 |-> "float64", bool |-> "bool", str |-> "string"]
NameIn(E, k) == IF E[k].d.k = "struct" THEN E[k].path[Len(E[k].path)] ELSE Dotted(E[k].path, 1)
RECURSIVE TypeName(_, _)
TypeName(E, t) ==
    CASE t[1] = "b" -> T(Spelled[t[2]])
      [] t[1] = "vec" -> T("[") \o TypeName(E, t[2]) \o T("]")
      [] OTHER -> NameIn(E, t[3])
RECURSIVE Target(_)
Target(t) == CASE t[1] = "b" -> 0 [] t[1] = "vec" -> Target(t[2]) [] OTHER -> t[3]
Title(E, k) ==
    CASE E[k].d.k = "enum" -> T("enum ") \o NameIn(E, k) \o T(" : ") \o T(Spelled[E[k].e.base])
      [] E[k].d.k = "struct" -> T("struct ") \o NameIn(E, k)
      [] E[k].d.k = "table" -> T("table ") \o NameIn(E, k)
      [] E[k].d.k = "union" -> T("union ") \o NameIn(E, k)
Sized(E, t, n) == TypeName(E, t) \o T(" (") \o Decimal(n) \o T(" bytes)")

-----------------------------------------------------------------------------
(* Texts inside a cell.  Characters that a label cannot hold are shown by their
   escape: control characters and the noncharacters FFFE and FFFF.            *)
RECURSIVE Hex(_)
Hex(n) == (IF n < 16 THEN <<>> ELSE Hex(n \div 16)) \o <<IF (n % 16) < 10 THEN 48 + (n % 16) ELSE 87 + (n % 16)>>
Escaped(n) == CASE n = 9 -> <<92, 116>> [] n = 10 -> <<92, 110>> [] n = 13 -> <<92, 114>>
                [] OTHER -> <<92, 117, 123>> \o Hex(n) \o <<125>>
RECURSIVE Cell(_, _)
Cell(b, p) ==
    IF p > Len(b) THEN <<>>
    ELSE IF b[p] < 32 \/ b[p] = 127 THEN Escaped(b[p]) \o Cell(b, p + 1)
    ELSE IF b[p] = 194 /\ b[p + 1] \in 128..159 THEN Escaped(b[p + 1]) \o Cell(b, p + 2)
    ELSE IF b[p] = 239 /\ b[p + 1] = 191 /\ b[p + 2] \in {190, 191} THEN Escaped(65344 + b[p + 2]) \o Cell(b, p + 3)
    ELSE <<b[p]>> \o Cell(b, p + 1)

(* does the cell c show the mode m?  c is [t, f32, f64]: its text and what the part
   behind "default " is as a number of either type                              *)
Rest(s, k) == SubSeq(s, k, Len(s))
NumberText(s, base, b) ==
    s # <<>> /\ LET neg == s[1] = 45
                    v == IF neg THEN Rest(s, 2) ELSE s
                IN  v # <<>> /\ (\A k \in 1..Len(v) : v[k] \in 48..57) /\ LET r == IntVal(neg, v, base) IN r.ok /\ r.b = b
Shows(E, t, m, c) ==
    CASE m[1] = "req" -> c.t = T("required")
      [] m[1] = "opt" -> c.t = T("optional")
      [] OTHER ->
            LET d == m[2]
                pre == T("default ")
                s == Rest(c.t, Len(pre) + 1)
                b == IF d[1] \in {"float", "inf", "nan"} THEN (IF d[2] = "f32" THEN c.f32 ELSE c.f64) ELSE <<>>
            IN  /\ SubSeq(c.t, 1, IF Len(c.t) < Len(pre) THEN Len(c.t) ELSE Len(pre)) = pre
                /\ CASE d[1] = "bool" -> s = T(IF d[2] THEN "true" ELSE "false")
                     [] d[1] = "int" -> NumberText(s, d[2], d[3])
                     [] d[1] = "str" -> s = Cell(d[2], 1)
                     [] d[1] = "enum" -> s = E[t[3]].d.b[d[2] + 1].n
                     [] d[1] = "vec" -> s = T("[]")
                     [] d[1] = "inf" -> b # <<>> /\ IsInf(b, d[2]) /\ Negative(b) = d[3]
                     [] d[1] = "nan" -> b # <<>> /\ IsNan(b, d[2])
                     [] d[1] = "float" -> b # <<>> /\ Negative(b) = d[3] /\ Rounded(d[4], b, d[2])

-----------------------------------------------------------------------------
(* Nodes *)
Port(k) == T("p") \o Decimal(k)
Plain(t) == <<<<>>, t>>
(* the fields of a table that are shown *)
Kept(D) == SelectSeq([j \in 1..Len(D.d.b) |-> j], LAMBDA j : ~Has(D.d.b[j].md, A_deprecated))
RECURSIVE StructRows(_, _, _, _)
StructRows(E, L, k, j) ==
    LET D == E[k]
        z == L[k]
        next == IF j < Len(D.d.b) THEN z.off[j + 1] ELSE z.sz
        pad == next - z.off[j] - z.fsz[j]
    IN  IF j > Len(D.d.b) THEN <<>>
        ELSE <<<<Plain(Decimal(z.off[j])), Plain(D.d.b[j].n), <<Port(j - 1), Sized(E, D.t[j], z.fsz[j])>>>>>>
             \o (IF pad > 0 THEN <<<<Plain(Decimal(pad) \o T(" bytes of padding"))>>>> ELSE <<>>)
             \o StructRows(E, L, k, j + 1)
Rows(E, L, k) ==       \* without the columns that Shows decides
    LET D == E[k] IN
    CASE D.d.k = "enum" -> [j \in 1..Len(D.d.b) |-> <<Plain(D.d.b[j].n)>>]
      [] D.d.k = "union" -> [j \in 1..Len(D.d.b) |-> <<Plain(VariantName(D.d.b, j)), <<Port(j - 1), TypeName(E, D.t[j])>>>>]
      [] D.d.k = "struct" ->
            <<<<Plain(T("size=") \o Decimal(L[k].sz) \o T(", alignment=") \o Decimal(L[k].al))>>>> \o StructRows(E, L, k, 1)
      [] D.d.k = "table" ->
            LET q == TLCEval(Kept(D))
                s == TLCEval(SlotsOf(D).s)
            IN  [x \in 1..Len(q) |->
                    LET j == q[x]
                        z == FieldSize(E, L, D.t[j])
                    IN  <<Plain(IF Two(D.t[j]) THEN Decimal(s[j]) \o T(" / ") \o Decimal(s[j] + 1) ELSE Decimal(s[j])),
                          Plain(D.d.b[j].n), Plain(Sized(E, D.t[j], z.sz + z.tag))>>]
(* the references of node k in order: <<port, number of the declaration>> *)
Refs(E, k) ==
    LET D == E[k]
        q == TLCEval(IF D.d.k = "table" THEN Kept(D) ELSE [j \in 1..Len(D.t) |-> j])
    IN  {<<Port(x - 1), Target(D.t[q[x]])>> : x \in {x \in 1..Len(q) : Target(D.t[q[x]]) # 0}}
=============================================================================
