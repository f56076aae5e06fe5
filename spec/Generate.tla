------------------------------ MODULE Generate ------------------------------
(* What Rust code must be generated for an accepted project: one item per declared
   type, in the module of its namespace, with its fields or variants in order and of
   the Rust types that correspond to their schema types, and a reader with one
   getter per field.  Which identifiers are chosen is left open, except that each is
   the schema name up to case and underscores.

   The items of a text are records [m, k, n, ...] (strings), see harness/inv.  *)
EXTENDS Schema

(* strings as bytes *)
Alphabet == "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_#"
Code == TLCEval([c \in {SubSeq(Alphabet, k, k) : k \in 1..Len(Alphabet)} |->
            LET k == CHOOSE k \in 1..Len(Alphabet) : SubSeq(Alphabet, k, k) = c IN
            IF k <= 26 THEN 96 + k ELSE IF k <= 52 THEN 38 + k ELSE IF k <= 62 THEN k - 5 ELSE IF k = 63 THEN 95 ELSE 35])
(* the letters and digits of a name *)
Lower(b) == IF b \in 65..90 THEN b + 32 ELSE b
Essence(bs) == LET s == SelectSeq(bs, LAMBDA b : b # 95 /\ b # 35) IN [k \in 1..Len(s) |-> Lower(s[k])]
EssenceS(s) == Essence([k \in 1..Len(s) |-> Code[SubSeq(s, k, k)]])
N_ref == <<114, 101, 102>>

-----------------------------------------------------------------------------
(* Paths: << module path >> ++ << name >>, from the place at which they are written *)
RECURSIVE Resolve(_, _, _)
Resolve(m, segs, k) ==
    IF k > Len(segs) THEN m
    ELSE IF segs[k] = "self" THEN Resolve(m, segs, k + 1)
    ELSE IF segs[k] = "super" THEN (IF m = <<>> THEN <<"?">> ELSE Resolve(SubSeq(m, 1, Len(m) - 1), segs, k + 1))
    ELSE Resolve(Append(m, segs[k]), segs, k + 1)
Last(s) == s[Len(s)]
IsStd(t, name, nargs) == t[1] = "path" /\ Last(t[3]) = name /\ Len(t[4]) = nargs
IsBuiltin(t, name) == IsStd(t, name, 0) /\ (Len(t[3]) = 1 \/ t[2])
Local(t) == t[1] = "path" /\ ~t[2]
RustOf == [bool |-> "bool", u8 |-> "u8", i8 |-> "i8", u16 |-> "u16", i16 |-> "i16", u32 |-> "u32", i32 |-> "i32",
           u64 |-> "u64", i64 |-> "i64", f32 |-> "f32", f64 |-> "f64", str |-> "String"]

(* at(k) is the path of the item chosen for declaration k *)
IsItem(at, k, m, t) == Local(t) /\ Resolve(m, t[3], 1) = at[k]
OwnedElem(at, t, m, r) ==
    IF t[1] = "b" THEN IsBuiltin(r, RustOf[t[2]]) ELSE IsItem(at, t[3], m, r)
OwnedPlain(at, t, m, r) ==
    CASE t[1] = "table" -> IsStd(r, "Box", 1) /\ IsItem(at, t[3], m, r[4][1])
      [] t[1] = "vec" -> IsStd(r, "Vec", 1) /\ OwnedElem(at, t[2], m, r[4][1])
      [] OTHER -> OwnedElem(at, t, m, r)
Owned(at, t, mode, m, r) ==
    IF mode[1] = "opt" THEN IsStd(r, "Option", 1) /\ OwnedPlain(at, t, m, r[4][1])
    ELSE OwnedPlain(at, t, m, r)

(* readers: the type that reads declaration k is named like its item and "Ref" *)
Reads(at, k, m, r) ==
    Local(r) /\ LET p == Resolve(m, r[3], 1) IN
                /\ Len(p) = Len(at[k]) /\ SubSeq(p, 1, Len(p) - 1) = SubSeq(at[k], 1, Len(p) - 1)
                /\ EssenceS(Last(p)) = EssenceS(Last(at[k])) \o N_ref
IsStr(r) == r[1] = "ref" /\ IsBuiltin(r[2], "str")
Result(r, P(_)) == r[1] = "path" /\ Last(r[3]) = "Result" /\ Len(r[4]) >= 1 /\ P(r[4][1])
ReadElem(at, t, m, r) ==
    CASE t[1] = "b" /\ t[2] # "str" -> IsBuiltin(r, RustOf[t[2]])
      [] t[1] = "b" -> Result(r, IsStr)
      [] t[1] = "enum" -> Result(r, LAMBDA x : IsItem(at, t[3], m, x))
      [] t[1] = "table" -> Result(r, LAMBDA x : Reads(at, t[3], m, x))
      [] OTHER -> Reads(at, t[3], m, r)
ReadPlain(at, t, m, r) ==
    CASE t[1] = "b" /\ t[2] = "str" -> IsStr(r)
      [] t[1] = "b" -> IsBuiltin(r, RustOf[t[2]])
      [] t[1] = "enum" -> IsItem(at, t[3], m, r)
      [] t[1] = "vec" ->
            \/ t[2] \in {<<"b", "u8">>, <<"b", "i8">>} /\ r[1] = "ref" /\ r[2][1] = "slice" /\ IsBuiltin(r[2][2], RustOf[t[2][2]])
            \/ IsStd(r, IF t[2][1] = "union" THEN "UnionVector" ELSE "Vector", 1) /\ ReadElem(at, t[2], m, r[4][1])
      [] OTHER -> Reads(at, t[3], m, r)
Read(at, t, mode, m, r) ==
    Result(r, LAMBDA x : IF mode[1] = "opt" THEN IsStd(x, "Option", 1) /\ ReadPlain(at, t, m, x[4][1]) ELSE ReadPlain(at, t, m, x))
ReadStructField(at, t, m, r) ==
    CASE t[1] = "b" -> IsBuiltin(r, RustOf[t[2]])
      [] t[1] = "enum" -> Result(r, LAMBDA x : IsItem(at, t[3], m, x))
      [] OTHER -> Reads(at, t[3], m, r)

-----------------------------------------------------------------------------
(* The declarations of the project M == Meaning(P) *)
Fields(M, k) ==      \* numbers of the fields of a table or struct that are generated
    SelectSeq([j \in 1..Len(M.E[k].d.b) |-> j], LAMBDA j : ~(M.E[k].d.k = "table" /\ Has(M.E[k].d.b[j].md, A_deprecated)))
SameNames(want, have) == Len(want) = Len(have) /\ \A j \in 1..Len(want) : Essence(want[j]) = EssenceS(have[j].n)
InModule(ns, m) ==   \* all modules lie in one that holds everything
    Len(m) = Len(ns) + 1 /\ \A j \in 1..Len(ns) : EssenceS(m[j + 1]) = Essence(ns[j])
(* the items that may be the one of declaration k *)
Candidates(M, k, items) ==
    LET D == M.E[k] IN
    {j \in 1..Len(items) :
        LET x == items[j] IN
        /\ x.k \in {"struct", "enum"} /\ x.pub /\ x.g = 0
        /\ InModule(D.ns, x.m)
        /\ EssenceS(x.n) = Essence(Last(D.path))
        /\ CASE D.d.k \in {"table", "struct"} ->
                  x.k = "struct" /\ SameNames([q \in 1..Len(Fields(M, k)) |-> D.d.b[Fields(M, k)[q]].n], x.f) /\ \A q \in 1..Len(x.f) : x.f[q].pub /\ x.f[q].n # ""
             [] D.d.k = "enum" -> x.k = "enum" /\ SameNames([q \in 1..Len(D.d.b) |-> D.d.b[q].n], x.v) /\ \A q \in 1..Len(x.v) : x.v[q].t = <<>>
             [] D.d.k = "union" -> x.k = "enum" /\ SameNames([q \in 1..Len(D.d.b) |-> VariantName(D.d.b, q)], x.v) /\ \A q \in 1..Len(x.v) : Len(x.v[q].t) = 1}
(* the getters of the reader of declaration k *)
Readers(M, k, items, x) ==
    {j \in 1..Len(items) : items[j].k = "impl" /\ items[j].tr = "" /\ items[j].m = x.m /\ EssenceS(items[j].n) = EssenceS(x.n) \o N_ref}

(* what is wrong with item x (at its place) for declaration k, "" if nothing *)
Wrong(M, at, k, x, items) ==
    LET D == M.E[k]
        fs == Fields(M, k)
        mode(j) == ModeOf(M.E, D.t[j], D.d.b[j]).m
        getter(j, n) ==
            {g \in UNION {{items[q].f[z] : z \in 1..Len(items[q].f)} : q \in Readers(M, k, items, x)} :
                g.n = n /\ g.pub /\ g.a = 1 /\ IF D.d.k = "table" THEN Read(at, D.t[j], mode(j), x.m, g.t) ELSE ReadStructField(at, D.t[j], x.m, g.t)}
    IN  CASE D.d.k = "table" ->
               IF \E q \in 1..Len(fs) : ~Owned(at, D.t[fs[q]], mode(fs[q]), x.m, x.f[q].t) THEN "type of a field"
               ELSE IF \E q \in 1..Len(fs) : getter(fs[q], x.f[q].n) = {} THEN "getter of a field"
               ELSE ""
          [] D.d.k = "struct" ->
               IF \E q \in 1..Len(fs) : ~OwnedPlain(at, D.t[fs[q]], x.m, x.f[q].t) THEN "type of a field"
               ELSE IF \E q \in 1..Len(fs) : getter(fs[q], x.f[q].n) = {} THEN "getter of a field"
               ELSE ""
          [] D.d.k = "enum" ->
               IF \E q \in 1..Len(x.v) : SubSeq(x.v[q].d, 1, Len(D.e.v[q])) # D.e.v[q] THEN "value of a variant" ELSE ""
          [] D.d.k = "union" ->
               IF \E q \in 1..Len(x.v) : ~OwnedPlain(at, D.t[q], x.m, x.v[q].t[1]) THEN "type of a variant" ELSE ""

(* choosing different items for different declarations *)
RECURSIVE Choices(_, _, _)
Choices(c, k, done) ==
    IF k > Len(c) THEN {done}
    ELSE UNION {Choices(c, k + 1, Append(done, j)) : j \in c[k] \ {done[q] : q \in 1..Len(done)}}

(* the names of a module, of the fields of an item and of its variants differ *)
WellScoped(items) ==
    /\ \A j, q \in 1..Len(items) :
          j < q /\ items[j].k # "impl" /\ items[q].k # "impl" /\ items[j].m = items[q].m => items[j].n # items[q].n
    /\ \A j \in 1..Len(items) :
          items[j].k # "impl" => /\ \A a, b \in 1..Len(items[j].f) : a < b /\ items[j].f[a].n # "" => items[j].f[a].n # items[j].f[b].n
                                 /\ \A a, b \in 1..Len(items[j].v) : a < b => items[j].v[a].n # items[j].v[b].n
=============================================================================
