---------------------------- MODULE ValuesJudge ----------------------------
(* Judges what values of generated types say of each other (C22).  Records:
   op "pair"    [s, j, a, b, o, c, r, rv]: o what the owned values said (p: the
                partial order, t: the total order and hashes), r the same of the
                views read in place, rv what the views show, c the copies of a
   op "enum"    [s, j, n, try, all]: conversion of the numbers n, and ENUM_VALUES
   op "default" [s, j, d]: the default value of a struct, or none             *)
EXTENDS Values, Batch, Json, IOUtils

Schemas == JsonDeserialize(IOEnv.SCHEMAS)
Known == TLCEval([s \in 1..Len(Schemas) |-> TLCEval([j \in 1..Len(Schemas[s].d) |->
            [total |-> Total(Schemas[s], j), enum |-> HasEnum(Schemas[s], j), 
             flat |-> ~HasEnum(Schemas[s], j) /\ ~HasText(Schemas[s], j)]])])

Absent(x) == "none" \in DOMAIN x
(* x: what a and b said of each other; partial: they must say something *)
Wrong(S, j, a, b, k, x, partial) ==
    LET t == <<"ref", j>>
        c == Cmp(S, t, a, b)
        e == Equal(S, t, a, b)
        p == x.p
        o == x.t
    IN  IF Absent(p) THEN (IF partial THEN <<"not comparable">> ELSE <<>>)
        ELSE IF p.eq # e \/ p.ne = e THEN <<"equality", e>>
        ELSE IF p.pc # c \/ p.lt # (c = -1) \/ p.le # (c \in {-1, 0}) \/ p.gt # (c = 1) \/ p.ge # (c \in {0, 1}) THEN <<"order", c, p.pc>>
        ELSE IF Absent(o) /\ k.total THEN <<"no total order">>
        ELSE IF Absent(o) THEN <<>>
        ELSE IF o.cmp # c \/ o.max # (c # 1) THEN <<"cmp", c, o.cmp>>
        ELSE IF e /\ ~o.hash THEN <<"hash">>
        ELSE <<>>
WhyPair(S, k, q) ==
    LET t == <<"ref", q.j>>
        own == Wrong(S, q.j, q.a, q.b, k, q.o, TRUE)
        read == IF q.rv = <<>> THEN <<>> ELSE Wrong(S, q.j, q.a, q.b, k, q.r, k.flat)
    IN  IF own # <<>> THEN <<"owned">> \o own
        ELSE IF q.c.clone # q.a THEN <<"clone">>
        ELSE IF AllFinite(S, t, q.a) /\ q.c.serde # q.a THEN <<"serde", q.c.serde>>
        ELSE IF read # <<>> THEN <<"view">> \o read
        ELSE IF q.rv # <<>> /\ q.rv # <<q.a, q.b>> THEN <<"view shows", q.rv>>
        ELSE <<>>
WhyEnum(S, q) ==
    LET d == S.d[q.j]
        vs == TLCEval(EnumVals(d))
        known == {vs[k] : k \in 1..Len(vs)}
        want(n) == IF n \in known THEN [ok |-> <<"sc", n>>, err |-> <<>>] ELSE [ok |-> <<"none">>, err |-> Extend(n, d.base \in SignedInts, 16)]
    IN  IF q.all # [k \in 1..Len(vs) |-> <<"sc", vs[k]>>] THEN <<"variants", q.all>>
        ELSE IF \E k \in 1..Len(q.n) : q.try[k] # want(q.n[k]) THEN <<"conversion", q.n[CHOOSE k \in 1..Len(q.n) : q.try[k] # want(q.n[k])]>>
        ELSE <<>>
WhyDefault(S, k, q) ==
    IF k.enum THEN <<>>
    ELSE IF q.d # ZeroOf(S, <<"ref", q.j>>) THEN <<"default", q.d>> ELSE <<>>
Why(q) ==
    LET S == Schemas[q.s]
        k == Known[q.s][q.j]
    IN  IF q.panic # "" THEN <<"panic", q.panic>>
        ELSE CASE q.op = "pair" -> WhyPair(S, k, q)
               [] q.op = "enum" -> WhyEnum(S, q)
               [] q.op = "default" -> WhyDefault(S, k, q)

Accepted == Verdict(i, Why(Rec(i)))
=============================================================================
