------------------------------- MODULE Schema -------------------------------
(* What a set of schema files means: whether it is accepted, and if so which
   declarations it yields.  Works on the bytes of the files.
   A project P is [files: << [name, b] >>, main: << file number >>]; names and
   texts are byte sequences.

   Meaning(P) = [why, files, decls]: why is the set of reasons for which the
   project must be rejected (empty: it must be accepted), decls the type
   declarations.                                                            *)
EXTENDS Parse, Literal

-----------------------------------------------------------------------------
(* Paths of files *)
RECURSIVE SplitAt(_, _, _)
SplitAt(b, p, cur) ==
    IF p > Len(b) THEN <<cur>>
    ELSE IF b[p] = 47 THEN <<cur>> \o SplitAt(b, p + 1, <<>>)
    ELSE SplitAt(b, p + 1, Append(cur, b[p]))
RECURSIVE NormFrom(_, _, _)
NormFrom(s, k, out) ==
    IF k > Len(s) THEN out
    ELSE IF s[k] = <<>> \/ s[k] = <<46>> THEN NormFrom(s, k + 1, out)
    ELSE IF s[k] = <<46, 46>> /\ out # <<>> /\ out[Len(out)] # <<46, 46>>
         THEN NormFrom(s, k + 1, SubSeq(out, 1, Len(out) - 1))
    ELSE NormFrom(s, k + 1, Append(out, s[k]))
Norm(s) == NormFrom(s, 1, <<>>)
NameOf(b) == Norm(SplitAt(b, 1, <<>>))
Include(name, text) == Norm(SubSeq(name, 1, Len(name) - 1) \o SplitAt(text, 1, <<>>))

-----------------------------------------------------------------------------
(* One file *)
TypeKinds == {"table", "struct", "enum", "union", "rpc_service"}
ParseFile(b) ==
    IF ~IsUtf8(b) THEN [why |-> {"not UTF-8"}, d |-> <<>>, T |-> <<>>, at |-> 0]
    ELSE LET l == Lex(b) IN
         IF ~l.ok THEN [why |-> {"malformed token"}, d |-> <<>>, T |-> l.toks, at |-> l.p]
         ELSE LET r == Parse(l.toks) IN
              IF r.ok THEN [why |-> {}, d |-> r.n, T |-> l.toks, at |-> 0]
              ELSE [why |-> {"syntax"}, d |-> <<>>, T |-> l.toks, at |-> 0]

(* Doc comments: outer ones before a declaration, field or variant; inner ones
   before everything else in the file.                                      *)
DocTokens(ds) ==
    {ds[k].tok : k \in {k \in 1..Len(ds) : ds[k].k \in TypeKinds}}
    \cup UNION {{ds[k].b[m].tok : m \in 1..Len(ds[k].b)} : k \in {k \in 1..Len(ds) : ds[k].k \in TypeKinds \ {"rpc_service"}}}
DocWhy(F) ==
    LET ok == DocTokens(F.d)
        misplacedPre(p, q) ==
            LET c == F.T[p].pre[q] IN
            CASE c.k = "c" -> FALSE
              [] c.k = "o" -> p \notin ok
              [] c.k = "i" -> p # 1 \/ \E r \in 1..(q - 1) : F.T[p].pre[r].k = "o"
    IN  IF \/ \E p \in 1..Len(F.T) : \E q \in 1..Len(F.T[p].pre) : misplacedPre(p, q)
           \/ \E p \in 1..Len(F.T) : F.T[p].post # <<>> /\ F.T[p].post[1].k # "c"
        THEN {"misplaced doc comment"} ELSE {}
Texts(cs, k) == LET s == SelectSeq(cs, LAMBDA c : c.k = k) IN [j \in 1..Len(s) |-> s[j].v]
DocOf(F, tok) == Texts(F.T[tok].pre, "o")
InnerDocs(F) == IF F.T = <<>> THEN <<>> ELSE Texts(F.T[1].pre, "i")

(* Order and number of the items of a file *)
Numbers(ds, ks) == {k \in 1..Len(ds) : ds[k].k \in ks}
OrderWhy(ds) ==
    LET ns == Numbers(ds, {"namespace"})
        ty == Numbers(ds, TypeKinds)
        inc == Numbers(ds, {"include", "native_include"})
        twice(k) == Cardinality(Numbers(ds, {k})) > 1
    IN  (IF \E a \in inc : \E b \in ns \cup ty : b < a THEN {"include too late"} ELSE {})
        \cup (IF \E a \in ns : \E b \in ty : b < a THEN {"namespace too late"} ELSE {})
        \cup (IF twice("namespace") THEN {"second namespace"} ELSE {})
        \cup (IF twice("root_type") \/ twice("file_extension") \/ twice("file_identifier") THEN {"declared twice"} ELSE {})
        \cup (IF Numbers(ds, {"native_include", "attribute", "rpc_service"}) # {} THEN {"not supported"} ELSE {})
NamespaceOf(ds) ==
    IF Numbers(ds, {"namespace"}) = {} THEN <<>>
    ELSE ds[CHOOSE k \in Numbers(ds, {"namespace"}) : \A j \in Numbers(ds, {"namespace"}) : k <= j].v

-----------------------------------------------------------------------------
(* Expressions: [k, neg, v] *)
N_true == <<116, 114, 117, 101>>
N_false == <<102, 97, 108, 115, 101>>
N_null == <<110, 117, 108, 108>>
N_inf == {<<105, 110, 102>>, <<105, 110, 102, 105, 110, 105, 116, 121>>}
N_nan == {<<110, 97, 110>>, <<78, 97, 78>>}
Ex(k, neg, v) == [k |-> k, neg |-> neg, v |-> v]
RECURSIVE Eval(_)
Eval(e) ==
    CASE e[1] = "none" -> Ex("none", FALSE, <<>>)
      [] e[1] = "id" -> CASE e[2] = N_true -> Ex("bool", FALSE, <<1>>)
                          [] e[2] = N_false -> Ex("bool", FALSE, <<0>>)
                          [] e[2] = N_null -> Ex("null", FALSE, <<>>)
                          [] e[2] \in N_inf -> Ex("inf", FALSE, <<>>)
                          [] e[2] \in N_nan -> Ex("nan", FALSE, <<>>)
                          [] OTHER -> Ex("const", FALSE, e[2])
      [] e[1] \in {"int", "flt", "str"} -> Ex(e[1], FALSE, e[2])
      [] e[1] = "sgn" -> LET x == Eval(e[3]) IN
                         IF x.k \in {"int", "flt", "inf", "nan"} THEN [x EXCEPT !.neg = (@ # e[2])] ELSE Ex("bad", FALSE, <<>>)
      [] e[1] = "list" -> IF \E k \in 1..Len(e[2]) : Eval(e[2][k]).k = "bad" THEN Ex("bad", FALSE, <<>>)
                          ELSE Ex("list", FALSE, e[2])

(* Attributes of an item: only those in ints (with a number) and flags (without a value) *)
MdWhy(md, ints, flags) ==
    IF md[1] = "none" THEN {}
    ELSE LET as == md[2] IN
         (IF \E k \in 1..Len(as) :
               ~(\/ as[k].n \in flags /\ as[k].v[1] = "none"
                 \/ as[k].n \in ints /\ as[k].v[1] # "none" /\ Eval(as[k].v).k = "int")
          THEN {"attribute"} ELSE {})
         \cup (IF \E j, k \in 1..Len(as) : j # k /\ as[j].n = as[k].n THEN {"attribute twice"} ELSE {})
A_required == <<114, 101, 113, 117, 105, 114, 101, 100>>
A_deprecated == <<100, 101, 112, 114, 101, 99, 97, 116, 101, 100>>
A_id == <<105, 100>>
A_force_align == <<102, 111, 114, 99, 101, 95, 97, 108, 105, 103, 110>>
Has(md, a) == md[1] = "md" /\ \E k \in 1..Len(md[2]) : md[2][k].n = a
Attr(md, a) == Eval((CHOOSE x \in {md[2][k] : k \in 1..Len(md[2])} : x.n = a).v)

(* small numbers out of bytes; Big stands for everything that is too large *)
Big == 1073741824
SmallOf(b) == IF b[3] # 0 \/ b[4] # 0 THEN Big ELSE b[1] + 256 * b[2]
(* the exponent of a forced alignment, or -1 when it is not a power of two that fits 32 bits *)
BitCount(b) == LET bits == {<<k, j>> \in (1..4) \X (0..7) : (b[k] \div (2^j)) % 2 = 1} IN Cardinality(bits)
LogOf(b) == CHOOSE n \in 0..31 : (b[n \div 8 + 1] \div (2^(n % 8))) % 2 = 1
ForcedLog(md) ==
    LET x == Attr(md, A_force_align)
        r == IntVal(x.neg, x.v, "u32")
    IN  IF ~r.ok \/ BitCount(r.b) # 1 THEN -1 ELSE LogOf(r.b)

-----------------------------------------------------------------------------
(* The options of the command line.  A project may have opt = [docs, meta]:
   with docs, doc comments where they mean nothing are forgiven, with meta,
   attributes that flatbuffers does not know and those of union variants.  What
   is forgiven might as well not be there: the file means the same without it. *)
KnownAttributes == TLCEval({
    <<102, 111, 114, 99, 101, 95, 97, 108, 105, 103, 110>>,
    <<98, 105, 116, 95, 102, 108, 97, 103, 115>>,
    <<99, 115, 104, 97, 114, 112, 95, 112, 97, 114, 116, 105, 97, 108>>,
    <<112, 114, 105, 118, 97, 116, 101>>,
    <<110, 97, 116, 105, 118, 101, 95, 116, 121, 112, 101>>,
    <<110, 97, 116, 105, 118, 101, 95, 116, 121, 112, 101, 95, 112, 97, 99, 107, 95, 110, 97, 109, 101>>,
    <<111, 114, 105, 103, 105, 110, 97, 108, 95, 111, 114, 100, 101, 114>>,
    <<114, 101, 113, 117, 105, 114, 101, 100>>,
    <<100, 101, 112, 114, 101, 99, 97, 116, 101, 100>>,
    <<107, 101, 121>>,
    <<115, 104, 97, 114, 101, 100>>,
    <<110, 101, 115, 116, 101, 100, 95, 102, 108, 97, 116, 98, 117, 102, 102, 101, 114>>,
    <<105, 100>>,
    <<104, 97, 115, 104>>,
    <<99, 112, 112, 95, 116, 121, 112, 101>>,
    <<99, 112, 112, 95, 112, 116, 114, 95, 116, 121, 112, 101>>,
    <<99, 112, 112, 95, 112, 116, 114, 95, 116, 121, 112, 101, 95, 103, 101, 116>>,
    <<99, 112, 112, 95, 115, 116, 114, 95, 116, 121, 112, 101>>,
    <<99, 112, 112, 95, 115, 116, 114, 95, 102, 108, 101, 120, 95, 99, 116, 111, 114>>,
    <<110, 97, 116, 105, 118, 101, 95, 105, 110, 108, 105, 110, 101>>,
    <<110, 97, 116, 105, 118, 101, 95, 100, 101, 102, 97, 117, 108, 116>>,
    <<102, 108, 101, 120, 98, 117, 102, 102, 101, 114>>,
    <<115, 116, 114, 101, 97, 109, 105, 110, 103>>,
    <<105, 100, 101, 109, 112, 111, 116, 101, 110, 116>>})
ForgiveDocs(F) ==
    LET ok == DocTokens(F.d)
        keep(p) ==
            LET pre == F.T[p].pre
                good(q) == CASE pre[q].k = "c" -> TRUE
                             [] pre[q].k = "o" -> p \in ok
                             [] pre[q].k = "i" -> p = 1 /\ \A r \in 1..(q - 1) : pre[r].k # "o"
                ks == SelectSeq([q \in 1..Len(pre) |-> q], good)
            IN  [q \in 1..Len(ks) |-> pre[ks[q]]]
    IN  [F EXCEPT !.T = [p \in 1..Len(F.T) |-> [F.T[p] EXCEPT !.pre = keep(p), !.post = SelectSeq(@, LAMBDA c : c.k = "c")]]]
ForgiveAttributes(F) ==
    LET md(m) == IF m[1] = "none" THEN m
                 ELSE <<"md", SelectSeq(m[2], LAMBDA a : a.n \in KnownAttributes \/ Eval(a.v).k = "bad")>>
        item(x, k) == IF "md" \notin DOMAIN x THEN x ELSE [x EXCEPT !.md = IF k = "union" THEN <<"none">> ELSE md(@)]
        decl(d) == IF d.k \notin TypeKinds \ {"rpc_service"} THEN d
                   ELSE [d EXCEPT !.md = md(@), !.b = [j \in 1..Len(@) |-> item(@[j], d.k)]]
    IN  [F EXCEPT !.d = [k \in 1..Len(@) |-> decl(@[k])]]
Forgive(F, P) ==
    IF "opt" \notin DOMAIN P THEN F
    ELSE LET G == IF P.opt.docs THEN ForgiveDocs(F) ELSE F IN IF P.opt.meta THEN ForgiveAttributes(G) ELSE G

-----------------------------------------------------------------------------
(* Types *)
Builtins == TLCEval(
    ( <<98, 111, 111, 108>> :> "bool" @@ <<117, 105, 110, 116, 56>> :> "u8" @@ <<117, 98, 121, 116, 101>> :> "u8"
   @@ <<117, 105, 110, 116, 49, 54>> :> "u16" @@ <<117, 115, 104, 111, 114, 116>> :> "u16"
   @@ <<117, 105, 110, 116, 51, 50>> :> "u32" @@ <<117, 105, 110, 116>> :> "u32"
   @@ <<117, 105, 110, 116, 54, 52>> :> "u64" @@ <<117, 108, 111, 110, 103>> :> "u64"
   @@ <<105, 110, 116, 56>> :> "i8" @@ <<98, 121, 116, 101>> :> "i8"
   @@ <<105, 110, 116, 49, 54>> :> "i16" @@ <<115, 104, 111, 114, 116>> :> "i16"
   @@ <<105, 110, 116, 51, 50>> :> "i32" @@ <<105, 110, 116>> :> "i32"
   @@ <<105, 110, 116, 54, 52>> :> "i64" @@ <<108, 111, 110, 103>> :> "i64"
   @@ <<102, 108, 111, 97, 116, 51, 50>> :> "f32" @@ <<102, 108, 111, 97, 116>> :> "f32"
   @@ <<102, 108, 111, 97, 116, 54, 52>> :> "f64" @@ <<100, 111, 117, 98, 108, 101>> :> "f64"
   @@ <<115, 116, 114, 105, 110, 103>> :> "str" ))
Sizes == [bool |-> 1, u8 |-> 1, i8 |-> 1, u16 |-> 2, i16 |-> 2, u32 |-> 4, i32 |-> 4, f32 |-> 4, u64 |-> 8, i64 |-> 8, f64 |-> 8]
IntNames == {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"}
FloatNames == {"f32", "f64"}
Bad == <<"bad">>

Repeats(s) == Cardinality({s[k] : k \in 1..Len(s)}) < Len(s)
Front(s, n) == SubSeq(s, 1, n)
RECURSIVE LookupFrom(_, _, _, _, _)
(* the innermost enclosing namespace that has the name in a reachable file *)
LookupFrom(DS, reach, ns, parts, n) ==
    LET path == Front(ns, n) \o parts
        hits == {k \in 1..Len(DS) : DS[k].path = path /\ DS[k].f \in reach}
    IN  IF hits # {} THEN LET k == CHOOSE k \in hits : \A j \in hits : k <= j IN <<DS[k].d.k, path, k>>
        ELSE IF n = 0 THEN Bad ELSE LookupFrom(DS, reach, ns, parts, n - 1)
RECURSIVE Res(_, _, _, _)
Res(DS, reach, ns, t) ==
    CASE t[1] = "path" -> IF Len(t[2]) = 1 /\ t[2][1] \in DOMAIN Builtins THEN <<"b", Builtins[t[2][1]]>>
                          ELSE LookupFrom(DS, reach, ns, t[2], Len(ns))
      [] t[1] = "vec" -> LET u == Res(DS, reach, ns, t[2]) IN IF u = Bad THEN Bad ELSE <<"vec", u>>
      [] t[1] = "arr" -> <<"arr">>

-----------------------------------------------------------------------------
(* Enums *)
EnumBase(d) ==
    IF d.base[1] = "path" /\ Len(d.base[2]) = 1 /\ d.base[2][1] \in DOMAIN Builtins /\ Builtins[d.base[2][1]] \in IntNames
    THEN Builtins[d.base[2][1]] ELSE "none"
RECURSIVE EnumVals(_, _, _, _, _)
(* [ok, v]; next: the value of the next variant without one, <<>> when there is none in the type *)
EnumVals(vs, t, k, next, acc) ==
    IF k > Len(vs) THEN [ok |-> TRUE, v |-> acc]
    ELSE LET x == Eval(vs[k].d)
             r == IF x.k = "int" THEN IntVal(x.neg, x.v, t) ELSE [ok |-> FALSE, b |-> <<>>]
         IN  IF x.k = "none" /\ next = <<>> THEN [ok |-> FALSE, v |-> acc]
             ELSE IF x.k # "none" /\ ~r.ok THEN [ok |-> FALSE, v |-> acc]
             ELSE LET b == IF x.k = "none" THEN next ELSE r.b IN
                  EnumVals(vs, t, k + 1, IF IsMax(b, t) THEN <<>> ELSE IncB(b, 1), Append(acc, b))
EnumOf(d) ==
    LET t == EnumBase(d) IN
    IF t = "none" THEN [why |-> {"enum type"}, base |-> t, v |-> <<>>]
    ELSE LET r == EnumVals(d.b, t, 1, [k \in 1..IntSize[t] |-> 0], <<>>) IN
         [why |-> (IF ~r.ok THEN {"enum value"} ELSE {})
                  \cup (IF Repeats(r.v) THEN {"same enum value"} ELSE {})
                  \cup (IF Repeats([k \in 1..Len(d.b) |-> d.b[k].n]) THEN {"same variant name"} ELSE {})
                  \cup MdWhy(d.md, {}, {}),
          base |-> t, v |-> r.v]

-----------------------------------------------------------------------------
(* Structs.  Sizes above 2^31-1 cannot be represented. *)
MaxSize == 2147483647
TooBig == -1
RoundUp(x, a) == IF x = TooBig THEN TooBig
                 ELSE LET r == x % a IN
                      IF r = 0 THEN x ELSE IF x - r > MaxSize - a THEN TooBig ELSE x - r + a
Plus(x, y) == IF x = TooBig \/ x > MaxSize - y THEN TooBig ELSE x + y
RECURSIVE EndsOf(_, _, _)
EndsOf(s, k, acc) ==       \* the end of every field
    IF k > Len(s) THEN acc
    ELSE EndsOf(s, k + 1, Append(acc, Plus(RoundUp(IF k = 1 THEN 0 ELSE acc[k - 1], s[k].al), s[k].sz)))
NoLayout(why) == [why |-> why, sz |-> 1, al |-> 1, off |-> <<>>, fsz |-> <<>>]
(* the layout of struct k, done holding those of the structs it contains *)
StructOf(E, k, done) ==
    LET D == E[k]
        n == Len(D.d.b)
        sa(j) == LET t == D.t[j] IN
                 CASE t[1] = "b" /\ t[2] # "str" -> [sz |-> Sizes[t[2]], al |-> Sizes[t[2]], why |-> {}]
                   [] t[1] = "enum" -> LET b == E[t[3]].e.base IN
                                       IF b = "none" THEN [sz |-> 1, al |-> 1, why |-> {"enum type"}]
                                       ELSE [sz |-> IntSize[b], al |-> IntSize[b], why |-> {}]
                   [] t[1] = "struct" -> [sz |-> done[t[3]].sz, al |-> done[t[3]].al, why |-> done[t[3]].why]
                   [] OTHER -> [sz |-> 1, al |-> 1, why |-> {"struct field type"}]
        s == TLCEval([j \in 1..n |-> sa(j)])
        whys == UNION {s[j].why : j \in 1..n}
        ends == EndsOf(s, 1, <<>>)
        end(j) == IF j = 0 THEN 0 ELSE ends[j]
        off == TLCEval([j \in 1..n |-> RoundUp(end(j - 1), s[j].al)])
        natural == IF n = 0 THEN 1 ELSE CHOOSE a \in {s[j].al : j \in 1..n} : \A j \in 1..n : s[j].al <= a
        has == Has(D.d.md, A_force_align)
        badMd == MdWhy(D.d.md, {A_force_align}, {})
        forced == IF has THEN ForcedLog(D.d.md) ELSE 0
        al == IF forced \in 0..30 /\ 2^forced > natural THEN 2^forced ELSE natural
        size == RoundUp(end(n), al)
    IN  IF whys # {} \/ badMd # {} THEN NoLayout(whys \cup badMd)
        ELSE IF has /\ (forced = -1 \/ forced = 31 \/ (forced < 31 /\ 2^forced < natural)) THEN NoLayout({"forced alignment"})
        ELSE IF end(n) = TooBig \/ size = TooBig THEN NoLayout({"struct size"})
        ELSE [why |-> {}, sz |-> size, al |-> al, off |-> off, fsz |-> [j \in 1..n |-> s[j].sz]]
(* all structs, those without unfinished parts first; what is left contains itself *)
RECURSIVE Layouts(_, _)
Layouts(E, done) ==
    LET ready == {k \in DOMAIN E \ DOMAIN done :
                    E[k].d.k = "struct" /\ \A j \in 1..Len(E[k].t) : E[k].t[j][1] = "struct" => E[k].t[j][3] \in DOMAIN done}
    IN  IF ready = {} THEN [k \in DOMAIN E |-> IF k \in DOMAIN done THEN done[k] ELSE NoLayout({"struct contains itself"})]
        ELSE Layouts(E, TLCEval(done @@ [k \in ready |-> StructOf(E, k, done)]))
StructWhy(D) ==
    (IF D.d.b = <<>> THEN {"empty struct"} ELSE {})
    \cup (IF \E i \in 1..Len(D.d.b) : D.d.b[i].d[1] # "none" THEN {"struct field default"} ELSE {})
    \cup (IF \E i \in 1..Len(D.d.b) : D.d.b[i].md[1] = "md" /\ D.d.b[i].md[2] # <<>> THEN {"struct field attribute"} ELSE {})

-----------------------------------------------------------------------------
(* Tables *)
Two(t) == t[1] = "union" \/ (t[1] = "vec" /\ t[2][1] = "union")
W2(t) == IF Two(t) THEN 2 ELSE 1
MaxSlots == 32765
IdOf(f) == LET x == Attr(f.md, A_id)
               r == IntVal(x.neg, x.v, "u32")
           IN  IF ~r.ok THEN -1 ELSE SmallOf(r.b)
SlotsOf(D) ==      \* [why, s]
    LET n == Len(D.d.b)
        given == {i \in 1..n : Has(D.d.b[i].md, A_id)}
        run[i \in 0..n] == IF i = 0 THEN 0 ELSE run[i - 1] + W2(D.t[i])
        id == TLCEval([i \in given |-> IdOf(D.d.b[i])])
        s == TLCEval(IF given = {} THEN [i \in 1..n |-> run[i - 1]]
                     ELSE [i \in 1..n |-> id[i] + 1 - W2(D.t[i])])
        used == UNION {s[i]..(s[i] + W2(D.t[i]) - 1) : i \in 1..n}
    IN  IF given = {} THEN [why |-> IF run[n] > MaxSlots THEN {"too many fields"} ELSE {}, s |-> s]
        ELSE IF given # 1..n THEN [why |-> {"partial ids"}, s |-> <<>>]
        ELSE IF \E i \in 1..n : id[i] = -1 \/ id[i] + 1 > MaxSlots \/ s[i] < 0 THEN [why |-> {"id out of range"}, s |-> <<>>]
        ELSE IF Cardinality(used) # run[n] THEN [why |-> {"overlapping ids"}, s |-> <<>>]
        ELSE IF used # 0..(run[n] - 1) THEN [why |-> {"gap in ids"}, s |-> <<>>]
        ELSE [why |-> {}, s |-> s]
FieldType(t) == t[1] \in {"b", "enum", "struct", "table", "union"}
                \/ (t[1] = "vec" /\ t[2][1] \in {"b", "enum", "struct", "table", "union"})
Scalar(t) == (t[1] = "b" /\ t[2] # "str") \/ t[1] = "enum"
(* the meaning of a default literal x for type t: [ok, m] *)
No == [ok |-> FALSE, m |-> <<>>]
VariantIdx(E, k, b) == LET h == {i \in 1..Len(E[k].e.v) : E[k].e.v[i] = b} IN IF h = {} THEN 0 ELSE CHOOSE i \in h : TRUE
NameIdx(E, k, nm) == LET h == {i \in 1..Len(E[k].d.b) : E[k].d.b[i].n = nm} IN IF h = {} THEN 0 ELSE CHOOSE i \in h : TRUE
Default(E, t, x) ==
    CASE t = <<"b", "bool">> -> IF x.k = "bool" THEN [ok |-> TRUE, m |-> <<"bool", x.v = <<1>>>>] ELSE No
      [] t = <<"b", "str">> -> IF x.k = "str" THEN [ok |-> TRUE, m |-> <<"str", x.v>>] ELSE No
      [] t[1] = "b" /\ t[2] \in IntNames ->
            IF x.k # "int" THEN No
            ELSE LET r == IntVal(x.neg, x.v, t[2]) IN IF r.ok THEN [ok |-> TRUE, m |-> <<"int", t[2], r.b>>] ELSE No
      [] t[1] = "b" /\ t[2] \in FloatNames ->
            IF x.k \in {"inf", "nan"} THEN [ok |-> TRUE, m |-> <<x.k, t[2], x.neg>>]
            ELSE IF x.k \notin {"int", "flt"} THEN No
            ELSE LET q == Rational(x.v) IN
                 IF ~q.ok \/ TooLarge(q, t[2]) THEN No ELSE [ok |-> TRUE, m |-> <<"float", t[2], x.neg, q>>]
      [] t[1] = "enum" ->
            LET base == E[t[3]].e.base
                i == IF base = "none" THEN 0
                     ELSE IF x.k = "int" THEN (LET r == IntVal(x.neg, x.v, base) IN IF r.ok THEN VariantIdx(E, t[3], r.b) ELSE 0)
                     ELSE IF x.k = "const" THEN NameIdx(E, t[3], x.v)
                     ELSE 0
            IN  IF i = 0 \/ i > Len(E[t[3]].e.v) THEN No ELSE [ok |-> TRUE, m |-> <<"enum", i - 1, E[t[3]].e.v[i]>>]
      [] t[1] = "vec" -> IF x.k = "list" /\ x.v = <<>> THEN [ok |-> TRUE, m |-> <<"vec", <<>>>>] ELSE No
      [] OTHER -> No
Zero(E, t) ==
    CASE t = <<"b", "bool">> -> [ok |-> TRUE, m |-> <<"bool", FALSE>>]
      [] t[1] = "b" /\ t[2] \in IntNames -> [ok |-> TRUE, m |-> <<"int", t[2], [k \in 1..IntSize[t[2]] |-> 0]>>]
      [] t[1] = "b" /\ t[2] \in FloatNames ->
            [ok |-> TRUE, m |-> <<"float", t[2], FALSE, [ok |-> TRUE, n |-> <<>>, e10 |-> 0, e2 |-> 0]>>]
      [] t[1] = "enum" ->
            LET i == IF E[t[3]].e.base = "none" THEN 0 ELSE VariantIdx(E, t[3], [k \in 1..IntSize[E[t[3]].e.base] |-> 0])
            IN  IF i = 0 THEN No ELSE [ok |-> TRUE, m |-> <<"enum", i - 1, E[t[3]].e.v[i]>>]
      [] OTHER -> No
(* [why, m]: m is <<"req">>, <<"opt">> or <<"def", meaning>> *)
ModeOf(E, t, f) ==
    LET x == Eval(f.d)
        req == Has(f.md, A_required)
        none == x.k = "none"
        d == Default(E, t, x)
    IN  IF x.k = "bad" THEN [why |-> {"expression"}, m |-> <<"opt">>]
        ELSE IF req /\ (Scalar(t) \/ ~none) THEN [why |-> {"required"}, m |-> <<"opt">>]
        ELSE IF req THEN [why |-> {}, m |-> <<"req">>]
        ELSE IF x.k = "null" THEN [why |-> {}, m |-> <<"opt">>]
        ELSE IF ~none THEN (IF d.ok THEN [why |-> {}, m |-> <<"def", d.m>>] ELSE [why |-> {"default"}, m |-> <<"opt">>])
        ELSE IF Zero(E, t).ok THEN [why |-> {}, m |-> <<"def", Zero(E, t).m>>]
        ELSE IF t[1] = "enum" THEN [why |-> {"enum without zero"}, m |-> <<"opt">>]
        ELSE [why |-> {}, m |-> <<"opt">>]
(* [sz, al, tag] of a field, from the table of structs L *)
FieldSize(E, L, t) ==
    CASE t[1] = "b" /\ t[2] # "str" -> [sz |-> Sizes[t[2]], al |-> Sizes[t[2]], tag |-> 0]
      [] t[1] = "enum" -> LET n == IF E[t[3]].e.base = "none" THEN 1 ELSE IntSize[E[t[3]].e.base] IN [sz |-> n, al |-> n, tag |-> 0]
      [] t[1] = "struct" -> [sz |-> L[t[3]].sz, al |-> L[t[3]].al, tag |-> 0]
      [] t[1] = "union" -> [sz |-> 4, al |-> 4, tag |-> 1]
      [] t[1] = "vec" /\ t[2][1] = "union" -> [sz |-> 4, al |-> 4, tag |-> 4]
      [] OTHER -> [sz |-> 4, al |-> 4, tag |-> 0]
TableWhy(E, L, D) ==
    LET n == Len(D.d.b)
        fs == TLCEval([i \in 1..n |-> FieldSize(E, L, D.t[i])])
        \* a field with a forced alignment occupies a multiple of it
        padded(j) == LET l == IF Has(D.d.b[j].md, A_force_align) THEN ForcedLog(D.d.b[j].md) ELSE 0
                     IN  IF l <= 0 \/ fs[j].sz > 65535 THEN fs[j].sz ELSE IF l > 16 THEN 65536 ELSE RoundUp(fs[j].sz, 2^l)
        total[j \in 0..n] == IF j = 0 THEN 4 ELSE Plus(total[j - 1], Plus(padded(j), fs[j].tag))
        mdw == UNION {MdWhy(D.d.b[i].md, {A_id, A_force_align}, {A_required, A_deprecated}) : i \in 1..n}
    IN  IF mdw # {} THEN mdw
        ELSE IF \E i \in 1..n : ~FieldType(D.t[i]) THEN {"table field type"}
        ELSE MdWhy(D.d.md, {}, {})
             \cup SlotsOf(D).why
             \cup UNION {ModeOf(E, D.t[i], D.d.b[i]).why : i \in 1..n}
             \cup UNION {IF ~Has(D.d.b[i].md, A_force_align) THEN {}
                         ELSE LET l == ForcedLog(D.d.b[i].md) IN
                              IF l = -1 \/ (l < 30 /\ 2^l < fs[i].al) THEN {"forced alignment"} ELSE {} : i \in 1..n}
             \cup (IF total[n] = TooBig \/ total[n] > 65535 THEN {"table size"} ELSE {})

-----------------------------------------------------------------------------
(* Unions *)
VariantType(t, named) == t[1] \in {"table", "struct"} \/ (named /\ t = <<"b", "str">>)
LastPart(v) == IF v.n # <<>> THEN v.n ELSE v.t[2][Len(v.t[2])]
RECURSIVE JoinUnderscore(_, _)
JoinUnderscore(ps, k) == IF k = Len(ps) THEN ps[k] ELSE ps[k] \o <<95>> \o JoinUnderscore(ps, k + 1)
VariantName(vs, i) ==
    IF vs[i].n # <<>> THEN vs[i].n
    ELSE IF \E j \in 1..Len(vs) : j # i /\ LastPart(vs[j]) = LastPart(vs[i]) THEN JoinUnderscore(vs[i].t[2], 1)
    ELSE LastPart(vs[i])
UnionWhy(D) ==
    LET vs == D.d.b
        n == Len(vs)
        given == [j \in 1..n |-> <<vs[j].n, IF vs[j].n = <<>> THEN vs[j].t ELSE <<>>>>]
    IN  IF \E i \in 1..n : ~VariantType(D.t[i], vs[i].n # <<>>) THEN {"union variant type"}
        ELSE (IF n > 255 THEN {"too many variants"} ELSE {})
             \cup (IF \E i \in 1..n : vs[i].md[1] # "none" THEN {"variant attribute"} ELSE {})
             \cup MdWhy(D.d.md, {}, {})
             \cup (IF Repeats(given) THEN {"variant twice"} ELSE {})
             \cup (IF Repeats([j \in 1..n |-> VariantName(vs, j)]) THEN {"same variant name"} ELSE {})

-----------------------------------------------------------------------------
(* A whole project *)
RECURSIVE Closure(_, _)
Closure(dep, s) ==
    LET t == s \cup UNION {dep[k] : k \in s} IN IF t = s THEN s ELSE Closure(dep, t)
RootWhy(t) == IF t[1] = "arr" THEN (LET x == Eval(t[3]) IN IF x.k = "int" /\ IntVal(x.neg, x.v, "u32").ok THEN {} ELSE {"array size"}) ELSE {}
RECURSIVE AnyRoot(_)
AnyRoot(t) == RootWhy(t) \cup (IF t[1] = "path" THEN {} ELSE AnyRoot(t[2]))
RECURSIVE FlatDecls(_, _, _)
FlatDecls(F, ks, k) ==
    IF k > Len(F) THEN <<>>
    ELSE (IF k \in ks
          THEN LET ds == F[k].d
                   ns == NamespaceOf(ds)
                   s == SelectSeq(ds, LAMBDA d : d.k \in TypeKinds \ {"rpc_service"})
               IN  [i \in 1..Len(s) |-> [f |-> k, ns |-> ns, path |-> Append(ns, s[i].n), d |-> s[i]]]
          ELSE <<>>) \o FlatDecls(F, ks, k + 1)
DupFields(D) == IF Repeats([k \in 1..Len(D.d.b) |-> D.d.b[k].n]) THEN {"same field name"} ELSE {}
Prefixes(p) == {Front(p, n) : n \in 0..Len(p)}

Meaning(P) ==
    LET nf == Len(P.files)
        names == TLCEval([k \in 1..nf |-> NameOf(P.files[k].name)])
        file(nm) == LET h == {k \in 1..nf : names[k] = nm} IN IF h = {} THEN 0 ELSE CHOOSE k \in h : TRUE
        F == TLCEval([k \in 1..nf |-> Forgive(ParseFile(P.files[k].b), P)])
        incs == TLCEval([k \in 1..nf |-> {file(Include(names[k], F[k].d[i].v)) : i \in Numbers(F[k].d, {"include"})}])
        dep == TLCEval([k \in 1..nf |-> incs[k] \ {0}])
        loaded == TLCEval(Closure(dep, {P.main[i] : i \in 1..Len(P.main)}))
        reach == TLCEval([k \in 1..nf |-> Closure(dep, {k})])
        DS == TLCEval(FlatDecls(F, loaded, 1))
        types(D) == [i \in 1..Len(D.d.b) |-> Res(DS, reach[D.f], D.ns, D.d.b[i].t)]
        E == TLCEval([k \in 1..Len(DS) |->
                DS[k] @@ (IF DS[k].d.k = "enum" THEN [e |-> EnumOf(DS[k].d), t |-> <<>>]
                          ELSE [t |-> types(DS[k])])])
        fileWhy == UNION {F[k].why \cup DocWhy(F[k]) \cup OrderWhy(F[k].d) : k \in loaded}
        spaces == UNION {Prefixes(NamespaceOf(F[k].d)) : k \in loaded}
        structural ==
            (IF \E k \in loaded : 0 \in incs[k] THEN {"missing include"} ELSE {})
            \cup (IF \E j, k \in 1..Len(DS) : j # k /\ DS[j].path = DS[k].path THEN {"type declared twice"} ELSE {})
            \cup (IF \E k \in 1..Len(DS) : DS[k].path \in spaces THEN {"type named like a namespace"} ELSE {})
            \cup UNION {UNION {AnyRoot(F[k].d[i].v) : i \in Numbers(F[k].d, {"root_type"})} : k \in loaded}
        L == TLCEval(Layouts(E, <<>>))
        declWhy(k) ==
            LET D == E[k] IN
            IF D.d.k # "enum" /\ \E i \in 1..Len(D.t) : D.t[i][1] = "bad" THEN {"unknown type"}
            ELSE CASE D.d.k = "enum" -> D.e.why
              [] D.d.k = "struct" -> StructWhy(D) \cup L[k].why \cup DupFields(D)
              [] D.d.k = "table" -> TableWhy(E, L, D) \cup DupFields(D)
              [] D.d.k = "union" -> UnionWhy(D)
    IN  IF fileWhy # {} THEN [why |-> fileWhy, F |-> F, E |-> <<>>, L |-> <<>>, loaded |-> loaded]
        ELSE IF structural # {} THEN [why |-> structural, F |-> F, E |-> <<>>, L |-> <<>>, loaded |-> loaded]
        ELSE [why |-> UNION {declWhy(k) : k \in 1..Len(E)}, F |-> F, E |-> E, L |-> L, loaded |-> loaded]
=============================================================================
