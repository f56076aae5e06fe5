---------------------------- MODULE GraphJudge ----------------------------
(* Judges the graph planus draws of a project against Graph.  A record is
   [files, main, obs]; obs is [ok, panic, bad, nodes, edges, again]:
     ok     whether the project was accepted,
     bad    "" or why the text is not a DOT document,
     nodes  << [id, title, rows] >>, a row << [p, t, f32, f64] >> (port, text, and
            the bytes of the number behind "default " or <<>>),
     edges  << [a, p, b, q] >>: from port p of node a to port q of node b,
     again  whether generating it again gave the same text.                   *)
EXTENDS Batch, Graph

PT(row) == [k \in 1..Len(row) |-> <<row[k].p, row[k].t>>]
WhyNode(M, k, n) ==
    LET D == M.E[k]
        want == TLCEval(Rows(M.E, M.L, k))
        q == TLCEval(IF D.d.k = "table" THEN Kept(D) ELSE <<>>)
        short(row) == IF D.d.k \in {"enum", "table"} THEN SubSeq(PT(row), 1, Len(row) - 1) ELSE PT(row)
        last(x) == n.rows[x][Len(n.rows[x])]
        differs == {x \in 1..Len(want) : Len(n.rows[x]) = 0 \/ short(n.rows[x]) # want[x]}
    IN  IF Len(n.rows) # Len(want) THEN <<"number of rows", Len(n.rows)>>
        ELSE IF differs # {} THEN <<"row", CHOOSE x \in differs : \A y \in differs : x <= y>>
        ELSE IF D.d.k = "enum" /\ \E x \in 1..Len(want) : last(x).p # <<>> \/ ~NumberText(last(x).t, D.e.base, D.e.v[x]) THEN <<"value">>
        ELSE IF D.d.k = "table" /\ \E x \in 1..Len(want) :
                    last(x).p # Port(x - 1) \/ ~Shows(M.E, D.t[q[x]], ModeOf(M.E, D.t[q[x]], D.d.b[q[x]]).m, last(x)) THEN <<"mode">>
        ELSE <<>>
Why(r) ==
    LET o == r.obs
        M == Meaning(r)
        node(id) == LET h == {k \in 1..Len(o.nodes) : o.nodes[k].id = id} IN IF h = {} THEN 0 ELSE CHOOSE k \in h : TRUE
        titles == TLCEval([k \in 1..Len(M.E) |-> Title(M.E, k)])
        mine(k) == {x \in 1..Len(o.nodes) : o.nodes[x].title = titles[k]}
        same(k) == {j \in 1..Len(M.E) : titles[j] = titles[k]}
        refs(x) == {<<o.edges[e].p, o.nodes[node(o.edges[e].b)].title>> : e \in {e \in 1..Len(o.edges) : o.edges[e].a = o.nodes[x].id}}
        want(k) == {<<e[1], titles[e[2]]>> : e \in Refs(M.E, k)}
        whys(k) == IF Cardinality(mine(k)) # Cardinality(same(k)) THEN <<"node", titles[k], Cardinality(mine(k))>>
                   ELSE IF \A x \in mine(k) : WhyNode(M, k, o.nodes[x]) # <<>> THEN WhyNode(M, k, o.nodes[CHOOSE x \in mine(k) : TRUE]) \o <<titles[k]>>
                   ELSE IF \A x \in mine(k) : refs(x) # want(k) THEN <<"edges", titles[k]>>
                   ELSE <<>>
        wrong == {k \in 1..Len(M.E) : whys(k) # <<>>}
    IN  IF o.panic # "" THEN <<"crash", o.panic>>
        ELSE IF M.why # {} \/ ~o.ok THEN <<>>      \* the verdict is C16's business
        ELSE IF o.bad # "" THEN <<"not a graph", o.bad>>
        ELSE IF ~o.again THEN <<"not deterministic">>
        ELSE IF Len(o.nodes) # Len(M.E) \/ Cardinality({o.nodes[x].id : x \in 1..Len(o.nodes)}) # Len(o.nodes) THEN <<"number of nodes">>
        ELSE IF \E e \in 1..Len(o.edges) : node(o.edges[e].a) = 0 \/ node(o.edges[e].b) = 0 \/ o.edges[e].q # T("name") THEN <<"edge to nowhere">>
        ELSE IF wrong # {} THEN whys(CHOOSE k \in wrong : TRUE)
        ELSE IF Len(o.edges) # Cardinality(UNION {{<<k, e>> : e \in Refs(M.E, k)} : k \in 1..Len(M.E)}) THEN <<"number of edges">>
        ELSE <<>>

Accepted == Verdict(i, Why(Rec(i)))
=============================================================================
