------------------------------ MODULE WireCode ------------------------------
(* C07 to C10, the generated code: judges recorded writes and defaults of tables
   against the schema alone.  A value record (op "value") is a WireBack record
   with the bytes b: they must mean the written value to the specification's own
   reader, and the root table must hold exactly the fields that differ from
   their default.  A default record (op "default") holds the owned value that the
   generated Default gives.                                                    *)
EXTENDS WellFormed, WireBack

Cx(r) == [b |-> r.b, L |-> Tables[r.s], k |-> 100000, mode |-> "get", xv |-> FALSE, dev |-> FALSE]
Walk(r) == WRef(Cx(r), <<"ref", r.j>>, 0)

(* Is the field f, written with value v, stored?  A value equal to the default
   is not; vectors given as offsets are not looked into.                      *)
Same(f, v) == \/ v[1] = "none"
              \/ f.def[1] = "sc" /\ v[1] = "sc" /\ SameScalar(f.t, v[2], f.def[2])
              \/ f.def[1] = "str" /\ v = f.def
IsNan(b) == LET n == Len(b) IN
            IF n = 4 THEN b[4] % 128 = 127 /\ b[3] >= 128 /\ (b[3] > 128 \/ b[2] > 0 \/ b[1] > 0)
            ELSE n = 8 /\ b[8] % 128 = 127 /\ b[7] >= 240 /\ (b[7] > 240 \/ \E q \in 1..6 : b[q] > 0)
Stored(r, f, q) ==
        IF r.how = "minimal" /\ f.p # "req" THEN "no"
        ELSE IF f.def[1] = "sc" /\ f.t[1] \in FloatNames /\ IsNan(f.def[2]) THEN "any"     \* equal to nothing
        ELSE IF Same(f, r.v[3][q]) THEN "no"
        ELSE IF f.def[1] = "vec" /\ r.v[3][q] = f.def THEN "any"
        ELSE "yes"
PresenceWhy(r) ==
    LET cx == Cx(r)
        fs == TLCEval(Shown(cx.L.d[r.j]))
        t == TableAt(cx, 0, 0)[2]
        there(q) == SlotOff(r.b, t, fs[q].slot) # 0
        bad == {q \in 1..Len(fs) : (Stored(r, fs[q], q) = "yes" /\ ~there(q)) \/ (Stored(r, fs[q], q) = "no" /\ there(q))}
    IN  IF bad = {} THEN <<>> ELSE <<"stored or omitted wrongly", {fs[q].n : q \in bad}>>

(* The bytes of a struct that belong to no field *)
RECURSIVE Used(_, _)
Used(L, j) == UNION {LET f == L.d[j].f[q] IN
                     IF f.kind = "struct" THEN {f.off + x : x \in Used(L, f.t[2])} ELSE f.off..(f.off + f.sz - 1) : q \in 1..Len(L.d[j].f)}
PaddingWhy(r) ==
    LET cx == Cx(r)
        fs == TLCEval(Shown(cx.L.d[r.j]))
        t == TableAt(cx, 0, 0)[2]
        bad == {q \in 1..Len(fs) :
                  /\ fs[q].kind = "struct" /\ SlotOff(r.b, t, fs[q].slot) # 0
                  /\ \E x \in (0..(fs[q].sz - 1)) \ Used(cx.L, fs[q].t[2]) : U8(r.b, t.o + SlotOff(r.b, t, fs[q].slot) + x) # 0}
    IN  IF bad = {} THEN <<>> ELSE <<"padding is not zero", {fs[q].n : q \in bad}>>

WhyValue(r) ==
    LET y == TLCEval(Why(r)) IN
    IF y # <<>> THEN y
    ELSE LET w == Walk(r).w
             v == TLCEval(RootView(Cx(r), r.j, 64))
         IN  IF v # Expected(r) THEN <<"bytes">> \o Diff(<<>>, Expected(r), v)
             ELSE IF w # {} THEN <<"faults", w>>
             ELSE IF PresenceWhy(r) # <<>> THEN PresenceWhy(r)
             ELSE PaddingWhy(r)

WhyDefault(r) ==
    LET fs == Shown(Tables[r.s].d[r.j])
        e == <<"tab", r.j, [q \in 1..Len(fs) |-> fs[q].def]>>
    IN  IF r.owned = e THEN <<>> ELSE <<"default">> \o Diff(<<>>, e, r.owned)

Judged == Verdict(i, IF Rec(i).op = "value" THEN WhyValue(Rec(i)) ELSE WhyDefault(Rec(i)))
=============================================================================
