---------------------------- MODULE InspectJudge ----------------------------
(* C15: judges recorded inspections.  A record holds the schema number s, the
   root table j, the bytes b, the schema number ws the buffer was written
   with, a crash message and the map [objs, root, ints] that was shown.      *)
EXTENDS Inspect, WellFormed, Batch, Json, IOUtils

Schemas == JsonDeserialize(IOEnv.SCHEMAS)
Tables == TLCEval([s \in 1..Len(Schemas) |-> TLCEval(LT(Schemas[s]))])

Match(cx, t, g) == <<g.k, g.o, g.n>> = Id(cx, t.x) /\ ObjWhy(cx, t, g) = Nil

Why(r) ==
    LET cx == [b |-> r.b, L |-> Tables[r.s], S |-> Schemas[r.s]]
        wf == WRef([b |-> r.b, L |-> Tables[r.ws], k |-> 10, mode |-> "get", xv |-> FALSE, dev |-> FALSE], <<"ref", r.j>>, 0)
        \* slots and misalignment are the generator's choice, inspection does not care
        faults == {w \in wf.w : w[1] \notin {"misaligned", "misaligned field", "unknown slot used", "vtable outside", "union tag zero", "half a union", "union tag"}}
    IN
    IF faults # {} THEN <<"GENERATOR: not well-formed", faults>>
    ELSE IF r.panic # "" THEN <<"panics", r.panic>>
    ELSE LET ts == TLCEval(Objs(cx, r.j))
             gs == r.map.objs
             fits == TLCEval([q \in 1..Len(gs) |-> {t \in ts : Match(cx, t, gs[q])}])
             lost == {t \in ts : \A q \in 1..Len(gs) : t \notin fits[q]}
             odd == {q \in 1..Len(gs) : fits[q] = {}}
         IN
         IF odd # {} THEN
            LET q == CHOOSE q \in odd : TRUE
                same == {t \in ts : Id(cx, t.x) = <<gs[q].k, gs[q].o, gs[q].n>>}
            IN  IF same = {} THEN <<"shows an object that is not there", gs[q].k, gs[q].o, gs[q].n>>
                ELSE ObjWhy(cx, CHOOSE t \in same : TRUE, gs[q])
         ELSE IF lost # {} THEN <<"does not show", {Id(cx, t.x) : t \in lost}>>
         ELSE IF Len(gs) # Cardinality(ts) THEN <<"shows an object twice", Len(gs), Cardinality(ts)>>
         ELSE IF r.map.root # Id(cx, Target(cx, RootOb(r.j))) THEN <<"root", r.map.root>>
         ELSE
         \* interpretations of every byte
         LET tree(q) == CHOOSE t \in fits[q] : TRUE
             want(p) == UNION {{<<q, c>> : c \in Chains(tree(q), 0, p)} : q \in {q \in 1..Len(gs) : In(p, tree(q))}}
             got(p) == {<<r.map.ints[p + 1][e][1], r.map.ints[p + 1][e][2]>> : e \in 1..Len(r.map.ints[p + 1])}
             off == {p \in 0..(Len(r.b) - 1) : got(p) # want(p) \/ Len(r.map.ints[p + 1]) # Cardinality(want(p))}
         IN  IF Len(r.map.ints) # Len(r.b) THEN <<"bytes", Len(r.map.ints)>>
             ELSE IF off = {} THEN <<>>
             ELSE LET p == CHOOSE p \in off : TRUE IN <<"interpretations of byte", p, "are", want(p), "shown", got(p)>>

Accepted == Verdict(i, Why(Rec(i)))
=============================================================================
