------------------------------- MODULE Parse -------------------------------
(* The declarations of a schema file, from its tokens (recursive descent; every
   P-operator maps a token position to [ok, n, p]: the node and the position
   after it).  Keywords are ordinary identifiers except where a declaration
   starts.  Nodes:
     type   <<"path", parts>> | <<"vec", type>> | <<"arr", type, expr>>
     expr   <<"id", v>> | <<"int", v>> | <<"flt", v>> | <<"str", v>>
            | <<"list", exprs>> | <<"sgn", negative, expr>>
     md     <<"none">> | <<"md", << [n, v: <<"none">> or expr] >> >>
     decl   [k, tok, ...], tok the number of its first token                 *)
EXTENDS Lex

OK(n, p) == [ok |-> TRUE, n |-> n, p |-> p]
Fail(p) == [ok |-> FALSE, n |-> <<>>, p |-> p]

Sym(T, p, c) == p <= Len(T) /\ T[p].k = "sym" /\ T[p].v[1] = c
Is(T, p, k) == p <= Len(T) /\ T[p].k = k
Semi == 59  Colon == 58  Comma == 44  Period == 46  Equals == 61
ParO == 40  ParC == 41  BraO == 123  BraC == 125  SqO == 91  SqC == 93

W_include == <<105, 110, 99, 108, 117, 100, 101>>
W_native_include == <<110, 97, 116, 105, 118, 101, 95, 105, 110, 99, 108, 117, 100, 101>>
W_namespace == <<110, 97, 109, 101, 115, 112, 97, 99, 101>>
W_attribute == <<97, 116, 116, 114, 105, 98, 117, 116, 101>>
W_table == <<116, 97, 98, 108, 101>>
W_struct == <<115, 116, 114, 117, 99, 116>>
W_enum == <<101, 110, 117, 109>>
W_union == <<117, 110, 105, 111, 110>>
W_root_type == <<114, 111, 111, 116, 95, 116, 121, 112, 101>>
W_rpc_service == <<114, 112, 99, 95, 115, 101, 114, 118, 105, 99, 101>>
W_file_extension == <<102, 105, 108, 101, 95, 101, 120, 116, 101, 110, 115, 105, 111, 110>>
W_file_identifier == <<102, 105, 108, 101, 95, 105, 100, 101, 110, 116, 105, 102, 105, 101, 114>>

Want(T, r, c) == IF r.ok /\ Sym(T, r.p, c) THEN OK(r.n, r.p + 1) ELSE Fail(r.p)

-----------------------------------------------------------------------------
RECURSIVE PPath(_, _, _)
PPath(T, p, acc) ==
    IF ~Is(T, p, "id") THEN Fail(p)
    ELSE IF Sym(T, p + 1, Period) THEN PPath(T, p + 2, Append(acc, T[p].v))
    ELSE OK(Append(acc, T[p].v), p + 1)

RECURSIVE PExpr(_, _), PList(_, _, _), PType(_, _)
PExpr(T, p) ==
    IF Is(T, p, "id") \/ Is(T, p, "int") \/ Is(T, p, "flt") \/ Is(T, p, "str")
    THEN OK(<<T[p].k, T[p].v>>, p + 1)
    ELSE IF Sym(T, p, 43) \/ Sym(T, p, 45)
    THEN LET r == PExpr(T, p + 1) IN
         IF r.ok THEN OK(<<"sgn", Sym(T, p, 45), r.n>>, r.p) ELSE r
    ELSE IF Sym(T, p, SqO)
    THEN IF Sym(T, p + 1, SqC) THEN OK(<<"list", <<>>>>, p + 2)
         ELSE LET r == PList(T, p + 1, <<>>) IN
              IF r.ok THEN OK(<<"list", r.n>>, r.p) ELSE r
    ELSE Fail(p)
(* after the bracket: at least one value, commas between, one comma allowed at the end *)
PList(T, p, acc) ==
    LET r == PExpr(T, p) IN
    IF ~r.ok THEN r
    ELSE IF Sym(T, r.p, SqC) THEN OK(Append(acc, r.n), r.p + 1)
    ELSE IF Sym(T, r.p, Comma)
    THEN IF Sym(T, r.p + 1, SqC) THEN OK(Append(acc, r.n), r.p + 2)
         ELSE PList(T, r.p + 1, Append(acc, r.n))
    ELSE Fail(r.p)

PType(T, p) ==
    IF Sym(T, p, SqO)
    THEN LET r == PType(T, p + 1) IN
         IF ~r.ok THEN r
         ELSE IF Sym(T, r.p, SqC) THEN OK(<<"vec", r.n>>, r.p + 1)
         ELSE IF Sym(T, r.p, Colon)
         THEN LET x == PExpr(T, r.p + 1) IN
              IF x.ok /\ Sym(T, x.p, SqC) THEN OK(<<"arr", r.n, x.n>>, x.p + 1) ELSE Fail(x.p)
         ELSE Fail(r.p)
    ELSE LET r == PPath(T, p, <<>>) IN
         IF r.ok THEN OK(<<"path", r.n>>, r.p) ELSE r

RECURSIVE PAttrs(_, _, _)
PAttrs(T, p, acc) ==
    IF ~Is(T, p, "id") THEN Fail(p)
    ELSE LET x == IF Sym(T, p + 1, Colon) THEN PExpr(T, p + 2) ELSE OK(<<"none">>, p + 1)
             a == Append(acc, [n |-> T[p].v, v |-> x.n])
         IN  IF ~x.ok THEN x
             ELSE IF Sym(T, x.p, ParC) THEN OK(a, x.p + 1)
             ELSE IF Sym(T, x.p, Comma)
             THEN IF Sym(T, x.p + 1, ParC) THEN OK(a, x.p + 2) ELSE PAttrs(T, x.p + 1, a)
             ELSE Fail(x.p)
PMeta(T, p) ==
    IF ~Sym(T, p, ParO) THEN OK(<<"none">>, p)
    ELSE IF Sym(T, p + 1, ParC) THEN OK(<<"md", <<>>>>, p + 2)
    ELSE LET r == PAttrs(T, p + 1, <<>>) IN
         IF r.ok THEN OK(<<"md", r.n>>, r.p) ELSE r

PAssign(T, p) == IF Sym(T, p, Equals) THEN PExpr(T, p + 1) ELSE OK(<<"none">>, p)

RECURSIVE PFields(_, _, _)
PFields(T, p, acc) ==
    IF Sym(T, p, BraC) THEN OK(acc, p + 1)
    ELSE IF ~(Is(T, p, "id") /\ Sym(T, p + 1, Colon)) THEN Fail(p)
    ELSE LET t == PType(T, p + 2)
             d == IF t.ok THEN PAssign(T, t.p) ELSE t
             m == IF d.ok THEN PMeta(T, d.p) ELSE d
         IN  IF m.ok /\ Sym(T, m.p, Semi)
             THEN PFields(T, m.p + 1, Append(acc, [n |-> T[p].v, t |-> t.n, d |-> d.n, md |-> m.n, tok |-> p]))
             ELSE Fail(m.p)

RECURSIVE PVals(_, _, _)
PVals(T, p, acc) ==
    IF Sym(T, p, BraC) THEN OK(acc, p + 1)
    ELSE IF ~Is(T, p, "id") THEN Fail(p)
    ELSE LET d == PAssign(T, p + 1)
             a == Append(acc, [n |-> T[p].v, d |-> d.n, tok |-> p])
         IN  IF ~d.ok THEN d
             ELSE IF Sym(T, d.p, BraC) THEN OK(a, d.p + 1)
             ELSE IF Sym(T, d.p, Comma) THEN PVals(T, d.p + 1, a)
             ELSE Fail(d.p)

RECURSIVE PVars(_, _, _)
PVars(T, p, acc) ==
    IF Sym(T, p, BraC) THEN OK(acc, p + 1)
    ELSE LET named == Is(T, p, "id") /\ Sym(T, p + 1, Colon)
             t == PType(T, IF named THEN p + 2 ELSE p)
             m == IF t.ok THEN PMeta(T, t.p) ELSE t
             a == Append(acc, [n |-> IF named THEN T[p].v ELSE <<>>, t |-> t.n, md |-> m.n, tok |-> p])
         IN  IF ~m.ok THEN m
             ELSE IF Sym(T, m.p, BraC) THEN OK(a, m.p + 1)
             ELSE IF Sym(T, m.p, Comma) THEN PVars(T, m.p + 1, a)
             ELSE Fail(m.p)

RECURSIVE PMethods(_, _)
PMethods(T, p) ==
    IF Sym(T, p, BraC) THEN OK(<<>>, p + 1)
    ELSE IF ~(Is(T, p, "id") /\ Sym(T, p + 1, ParO)) THEN Fail(p)
    ELSE LET a == PType(T, p + 2)
             r == IF a.ok /\ Sym(T, a.p, ParC) /\ Sym(T, a.p + 1, Colon) THEN PType(T, a.p + 2) ELSE Fail(a.p)
             m == IF r.ok THEN PMeta(T, r.p) ELSE r
         IN  IF m.ok /\ Sym(T, m.p, Semi) THEN PMethods(T, m.p + 1) ELSE Fail(m.p)

-----------------------------------------------------------------------------
Simple(T, p, k, r) ==      \* keyword node semicolon
    LET w == Want(T, r, Semi) IN
    IF w.ok THEN OK([k |-> k, tok |-> p, v |-> w.n], w.p) ELSE w
StrAt(T, p) == IF Is(T, p, "str") THEN OK(T[p].v, p + 1) ELSE Fail(p)
WithBody(T, p, k, m, body) ==
    IF body.ok THEN OK([k |-> k, tok |-> p, n |-> T[p + 1].v, md |-> m.n, b |-> body.n], body.p) ELSE body

PDecl(T, p) ==
    IF ~Is(T, p, "id") THEN Fail(p)
    ELSE LET w == T[p].v
             m == PMeta(T, p + 2)
             open == m.ok /\ Is(T, p + 1, "id") /\ Sym(T, m.p, BraO)
         IN
    CASE w = W_include -> Simple(T, p, "include", StrAt(T, p + 1))
      [] w = W_native_include -> Simple(T, p, "native_include", StrAt(T, p + 1))
      [] w = W_namespace -> Simple(T, p, "namespace", PPath(T, p + 1, <<>>))
      [] w = W_attribute -> Simple(T, p, "attribute", IF Is(T, p + 1, "id") THEN OK(T[p + 1].v, p + 2) ELSE StrAt(T, p + 1))
      [] w = W_root_type -> Simple(T, p, "root_type", PType(T, p + 1))
      [] w = W_file_extension -> Simple(T, p, "file_extension", StrAt(T, p + 1))
      [] w = W_file_identifier -> Simple(T, p, "file_identifier", StrAt(T, p + 1))
      [] w = W_table -> IF open THEN WithBody(T, p, "table", m, PFields(T, m.p + 1, <<>>)) ELSE Fail(p + 1)
      [] w = W_struct -> IF open THEN WithBody(T, p, "struct", m, PFields(T, m.p + 1, <<>>)) ELSE Fail(p + 1)
      [] w = W_union -> IF open THEN WithBody(T, p, "union", m, PVars(T, m.p + 1, <<>>)) ELSE Fail(p + 1)
      [] w = W_enum ->
            LET b == IF Sym(T, p + 2, Colon) THEN PType(T, p + 3) ELSE OK(<<"none">>, p + 2)
                em == IF b.ok THEN PMeta(T, b.p) ELSE b
                v == IF em.ok /\ Is(T, p + 1, "id") /\ Sym(T, em.p, BraO) THEN PVals(T, em.p + 1, <<>>) ELSE Fail(em.p)
            IN  IF v.ok THEN OK([k |-> "enum", tok |-> p, n |-> T[p + 1].v, md |-> em.n, base |-> b.n, b |-> v.n], v.p) ELSE v
      [] w = W_rpc_service ->
            IF Is(T, p + 1, "id") /\ Sym(T, p + 2, BraO)
            THEN LET r == PMethods(T, p + 3) IN IF r.ok THEN OK([k |-> "rpc_service", tok |-> p], r.p) ELSE r
            ELSE Fail(p + 1)
      [] OTHER -> Fail(p)

RECURSIVE PDecls(_, _, _)
PDecls(T, p, acc) ==
    IF Is(T, p, "eof") THEN OK(acc, p)
    ELSE LET r == PDecl(T, p) IN IF r.ok THEN PDecls(T, r.p, Append(acc, r.n)) ELSE r

Parse(T) == PDecls(T, 1, <<>>)
=============================================================================
