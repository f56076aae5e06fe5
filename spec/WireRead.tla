------------------------------ MODULE WireRead ------------------------------
(* C04: judges recorded reads.  A record holds the schema number s, the root
   table j, the bytes b, the reading mode, the bounds D and K, the view the
   generated reader produced and the result of the owned conversion.         *)
EXTENDS Wire, Batch, Json, IOUtils

Schemas == JsonDeserialize(IOEnv.SCHEMAS)
Tables == TLCEval([s \in 1..Len(Schemas) |-> TLCEval(LT(Schemas[s]))])
XV == IOEnv.XV = "1"

Cx(r, dev) == [b |-> r.b, L |-> Tables[r.s], k |-> r.K, mode |-> r.mode, xv |-> XV, dev |-> dev]

OwnedWhy(r, v, ts) ==
    LET es == Errs(v) IN
    IF r.owned[1] = "skip" \/ r.mode # "iter" THEN <<>>
    ELSE IF r.owned[1] = "err"
    THEN IF Cut(v) \/ \E e \in es : e[2] = r.owned[2] /\ e[3] = r.owned[3] /\ e[5] = r.owned[5] THEN <<>>
         ELSE <<"owned conversion failed", r.owned, "errors in the buffer", es>>
    ELSE IF es # {} THEN <<"owned conversion hides", es>>
    ELSE IF ~Cut(v) /\ r.owned # v THEN <<"owned value", r.owned, "reader", v>>
    ELSE <<>>

RECURSIVE Diff(_, _, _)
Diff(path, want, got) ==
    IF want = got THEN <<>>
    ELSE IF want[1] = got[1] /\ want[1] \in {"tab", "vec"} /\ want[2] = got[2] /\ Len(want[3]) = Len(got[3])
    THEN LET q == CHOOSE q \in 1..Len(want[3]) : want[3][q] # got[3][q]
         IN  Diff(path \o <<q>>, want[3][q], got[3][q])
    ELSE IF want[1] = got[1] /\ want[1] = "un" /\ want[2] = got[2] THEN Diff(path \o <<"un">>, want[3], got[3])
    ELSE IF want[1] = got[1] /\ want[1] = "st" /\ Len(want[2]) = Len(got[2])
    THEN LET q == CHOOSE q \in 1..Len(want[2]) : want[2][q] # got[2][q]
         IN  Diff(path \o <<q>>, want[2][q], got[2][q])
    ELSE <<"at", path, "specified", want, "read", got>>

Why(r) ==
    LET v == RootView(Cx(r, FALSE), r.j, r.D)
    IN  IF r.view = v THEN OwnedWhy(r, v, Tables[r.s])
        ELSE LET vd == RootView(Cx(r, TRUE), r.j, r.D)
             IN  IF r.view = vd THEN
                     \* what is read is an error the format knows no reason for
                     <<"vtable-before-slice", Diff(<<>>, v, r.view)>>
                 ELSE Diff(<<>>, v, r.view)

Accepted == Verdict(i, Why(Rec(i)))
=============================================================================
