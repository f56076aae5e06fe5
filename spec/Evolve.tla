------------------------------- MODULE Evolve -------------------------------
(* C11: schema evolution.  A record says that the value v of table j was
   written with schema version a and read with version b.  Compatible(a, b)
   is the relation the property assumes (checked here, so that the generator
   cannot smuggle in an incompatible pair); Seen is what the reader must see:
   values travel by vtable slot, not by name or declaration order.           *)
EXTENDS Wire, Batch, Json, IOUtils

Schemas == JsonDeserialize(IOEnv.SCHEMAS)
Tables == TLCEval([s \in 1..Len(Schemas) |-> TLCEval(LT(Schemas[s]))])

-----------------------------------------------------------------------------
(* Two versions are compatible when they share declarations by number and
   - shared enums agree on base and on the values they both have,
   - shared structs are equal, unions extend one another at the end,
   - fields of shared tables with the same slot have the same type, presence
     and default.                                                            *)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
SlotField(T, s) ==    \* the field occupying slot s first, 0 if none
    LET q == {q \in 1..Len(T.f) : T.f[q].slot = s} IN IF q = {} THEN 0 ELSE CHOOSE x \in q : TRUE
SameDecl(x, y) ==
    x.k = y.k /\
    CASE x.k = "enum" -> x.sz = y.sz /\ x.signed = y.signed /\ (Prefix(x.vals, y.vals) \/ Prefix(y.vals, x.vals))
      [] x.k = "struct" -> x = y
      [] x.k = "union" -> Prefix(x.v, y.v) \/ Prefix(y.v, x.v)
      [] x.k = "table" ->
            \A q \in 1..Len(x.f) : \A p \in 1..Len(y.f) :
                (x.f[q].slot = y.f[p].slot) =>
                    x.f[q].t = y.f[p].t /\ x.f[q].two = y.f[p].two /\ x.f[q].p = y.f[p].p /\ x.f[q].def = y.f[p].def
Compatible(A, B) ==
    LET n == IF Len(A.d) < Len(B.d) THEN Len(A.d) ELSE Len(B.d)
    IN  \A k \in 1..n : SameDecl(A.d[k], B.d[k])
-----------------------------------------------------------------------------
FloatNames == {"f32", "f64"}
IsZero(b) == b[Len(b)] \in {0, 128} /\ \A q \in 1..(Len(b) - 1) : b[q] = 0
SameScalar(t, a, b) == a = b \/ (t[1] \in FloatNames /\ IsZero(a) /\ IsZero(b))

Err(kind) == <<"err", kind>>

RECURSIVE Seen(_, _, _, _)
ShownNo(T, q) == Cardinality({p \in 1..q : ~T.f[p].dep})   \* place of field q among the shown ones
FieldSeen(A, B, TA, f, vs) ==
    LET q == SlotField(TA, f.slot)
        v == IF q = 0 \/ TA.f[q].dep THEN <<"none">> ELSE vs[ShownNo(TA, q)]
    IN  IF v[1] = "none" THEN IF f.p = "req" THEN Err("MissingRequired") ELSE f.def
        ELSE IF f.def[1] = "sc" /\ v[1] = "sc" /\ SameScalar(f.t, v[2], f.def[2]) THEN f.def
        ELSE Seen(A, B, f.t, v)
Seen(A, B, t, v) ==
    CASE v[1] = "tab" ->
            LET fs == Shown(B.d[t[2]])
                TA == A.d[t[2]]
            IN  <<"tab", t[2], [q \in 1..Len(fs) |-> FieldSeen(A, B, TA, fs[q], v[3])]>>
      [] v[1] = "vec" -> <<"vec", v[2], [q \in 1..Len(v[3]) |-> Seen(A, B, t[2], v[3][q])]>>
      [] v[1] = "un" ->
            LET u == B.d[t[2]] IN
            IF v[2] > Len(u.v) THEN Err("UnknownUnionTag")
            ELSE <<"un", v[2], Seen(A, B, u.v[v[2]], v[3])>>
      [] v[1] = "st" ->
            LET s == B.d[t[2]] IN <<"st", [q \in 1..Len(s.f) |-> Seen(A, B, s.f[q].t, v[2][q])]>>
      [] v[1] = "sc" /\ TK(B, t) = "enum" ->
            IF \E q \in 1..Len(B.d[t[2]].vals) : B.d[t[2]].vals[q] = v[2] THEN v ELSE Err("UnknownEnumTag")
      [] OTHER -> v

(* a view with its errors reduced to their kind *)
RECURSIVE Red(_)
Red(v) ==
    CASE v[1] = "err" -> <<"err", v[2]>>
      [] v[1] = "tab" -> <<"tab", v[2], [q \in 1..Len(v[3]) |-> Red(v[3][q])]>>
      [] v[1] = "vec" -> <<"vec", v[2], [q \in 1..Len(v[3]) |-> Red(v[3][q])]>>
      [] v[1] = "st" -> <<"st", [q \in 1..Len(v[2]) |-> Red(v[2][q])]>>
      [] v[1] = "un" -> <<"un", v[2], Red(v[3])>>
      [] OTHER -> v

WhyRead(r) ==
    LET A == Tables[r.s]
        B == Tables[r.rs]
        e == Seen(A, B, <<"ref", r.j>>, r.v)
        es == {x[2] : x \in Errs(e)}
    IN  IF r.panic # "" THEN <<"panics", r.panic>>
        ELSE IF Red(r.view) # e THEN <<"get: specified", e, "read", r.view>>
        ELSE IF Red(r.iview) # e THEN <<"iter: specified", e, "read", r.iview>>
        ELSE IF r.owned[1] = "skip" THEN <<>>
        ELSE IF es = {} THEN IF r.owned # e THEN <<"owned: specified", e, "read", r.owned>> ELSE <<>>
        ELSE IF r.owned[1] # "err" \/ r.owned[2] \notin es THEN <<"owned: specified errors", es, "read", r.owned>>
        ELSE <<>>

Why(r) ==
    IF r.op = "versions"
    THEN IF Compatible(Tables[r.s], Tables[r.rs]) THEN <<>> ELSE <<"GENERATOR: incompatible versions">>
    ELSE WhyRead(r)

Accepted == Verdict(i, Why(Rec(i)))
=============================================================================
