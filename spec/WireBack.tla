------------------------------ MODULE WireBack ------------------------------
(* C01: judges recorded round trips.  A record holds the schema number s, the
   root table j, the value v that was written, the writing style how, and what
   the generated readers returned for the finished bytes: view (indexed
   access), iview (iteration), owned (conversion to the owned type).
   ReadBack is the value the schema says is read after writing v.            *)
EXTENDS Wire, Batch, Json, IOUtils

Schemas == JsonDeserialize(IOEnv.SCHEMAS)
Tables == TLCEval([s \in 1..Len(Schemas) |-> TLCEval(LT(Schemas[s]))])

FloatNames == {"f32", "f64"}
IsZero(b) == b[Len(b)] \in {0, 128} /\ \A q \in 1..(Len(b) - 1) : b[q] = 0
(* IEEE equality of the stored bytes: the zeros are equal (NaNs, which equal
   nothing, are stored like any other value and read back as themselves).    *)
SameScalar(t, a, b) == a = b \/ (t[1] \in FloatNames /\ IsZero(a) /\ IsZero(b))

RECURSIVE ReadBack(_, _, _)
FieldBack(L, f, v, min) ==
    IF v[1] = "none" THEN f.def
    ELSE IF min /\ f.p # "req" THEN f.def
    ELSE IF f.def[1] = "sc" /\ v[1] = "sc" /\ SameScalar(f.t, v[2], f.def[2]) THEN f.def
    ELSE ReadBack(L, f.t, v)

ReadBack(L, t, v) ==
    CASE v[1] = "tab" ->
            LET fs == Shown(L.d[v[2]])
            IN  <<"tab", v[2], [q \in 1..Len(fs) |-> FieldBack(L, fs[q], v[3][q], FALSE)]>>
      [] v[1] = "vec" -> <<"vec", v[2], [q \in 1..Len(v[3]) |-> ReadBack(L, t[2], v[3][q])]>>
      [] v[1] = "un" -> <<"un", v[2], ReadBack(L, L.d[t[2]].v[v[2]], v[3])>>
      [] OTHER -> v

Expected(r) ==
    LET L == Tables[r.s] IN
    IF r.how = "minimal"
    THEN LET fs == Shown(L.d[r.j])
         IN  <<"tab", r.j, [q \in 1..Len(fs) |-> FieldBack(L, fs[q], r.v[3][q], TRUE)]>>
    ELSE ReadBack(L, <<"ref", r.j>>, r.v)

RECURSIVE Diff(_, _, _)
Diff(path, want, got) ==
    IF want = got THEN <<>>
    ELSE IF want[1] = got[1] /\ want[1] \in {"tab", "vec"} /\ want[2] = got[2] /\ Len(want[3]) = Len(got[3])
    THEN LET q == CHOOSE q \in 1..Len(want[3]) : want[3][q] # got[3][q]
         IN  Diff(path \o <<q>>, want[3][q], got[3][q])
    ELSE IF want[1] = got[1] /\ want[1] = "un" /\ want[2] = got[2] THEN Diff(path \o <<"un">>, want[3], got[3])
    ELSE <<"at", path, "written", want, "read", got>>

Why(r) ==
    LET e == Expected(r) IN
    IF r.panic # "" THEN <<"writing panics", r.panic>>
    ELSE IF r.view # e THEN <<"get">> \o Diff(<<>>, e, r.view)
    ELSE IF r.iview # e THEN <<"iter">> \o Diff(<<>>, e, r.iview)
    ELSE IF r.owned[1] # "skip" /\ r.owned # e THEN <<"owned">> \o Diff(<<>>, e, r.owned)
    ELSE <<>>

Accepted == Verdict(i, Why(Rec(i)))
=============================================================================
