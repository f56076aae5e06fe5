--------------------------- MODULE InspectorJudge ---------------------------
(* C19: judges recorded steps of the inspector.  A record [d, kind, a, key,
   b, ...] holds the number of the buffer, the state before, the key and the
   state after; "start" records hold the first state, "draw" records a
   rendering, "panic" records a key that made the inspector panic.           *)
EXTENDS Inspector, Batch, Json, IOUtils

Data == JsonDeserialize(IOEnv.DATA)

DrawWhy(d, r) ==
    LET a == r.a
        b == r.b
        hex == r.hex
        obj == r.obj
        dg == r.dg
        ls == b.ls
        from == r.lp
        hrow(q) == IF from + (q - 1) * ls < d.n THEN RowText(d.b, from + (q - 1) * ls, ls, dg) ELSE ""
        L == Lns(d, b.view.info[1])
        orow(q) == IF r.first + q <= Len(L) THEN LineRow(L[r.first + q], obj.w) ELSE ""
    IN
    IF [b EXCEPT !.ls = a.ls] # a THEN <<"drawing changed the state", b>>
    ELSE IF r.panic # "" THEN <<"panics", r.panic>>
    ELSE IF b.modal # None THEN <<>>
    ELSE IF Len(hex.rows) > 0 /\ ls # 8 * Groups(hex.w, dg) THEN <<"bytes per row", ls, "for", hex.w>>
    ELSE IF Len(hex.rows) > 0 /\ ls > 0 /\ ~(from % ls = 0 /\ from <= b.view.byte /\ b.view.byte < from + ls * Len(hex.rows))
    THEN <<"cursor not on screen", b.view.byte, from, ls, Len(hex.rows)>>
    ELSE IF Len(hex.rows) > 0 /\ ls > 0 /\ \E q \in 1..Len(hex.rows) : hex.rows[q] # hrow(q)
    THEN LET q == CHOOSE q \in 1..Len(hex.rows) : hex.rows[q] # hrow(q) IN <<"hex row", q, hrow(q), "shown", hex.rows[q]>>
    ELSE IF Len(hex.rows) > 0 /\ ls > 0 /\ hex.under # (IF b.win = "H" THEN <<<<1 + ((b.view.byte - from) \div ls), Hex(d.b[b.view.byte + 1], 2)>>>> ELSE <<>>)
    THEN <<"cursor of the hex view", hex.under>>
    ELSE IF ~HasInfo(b.view) THEN
        IF \E q \in 1..Len(obj.rows) : obj.rows[q] # "" THEN <<"object view not empty", obj.rows>> ELSE <<>>
    ELSE IF Len(obj.rows) = 0 THEN <<>>
    ELSE IF ~(r.first <= b.view.info[2] /\ b.view.info[2] < r.first + Len(obj.rows))
    THEN <<"selected line not on screen", b.view.info[2], r.first, Len(obj.rows)>>
    ELSE IF obj.w > 0 /\ \E q \in 1..Len(obj.rows) : obj.rows[q] # orow(q)
    THEN LET q == CHOOSE q \in 1..Len(obj.rows) : obj.rows[q] # orow(q) IN <<"object row", q, orow(q), "shown", obj.rows[q]>>
    ELSE <<>>

Why(r) ==
    LET d == Data[r.d] IN
    CASE r.kind = "panic" -> <<"panics", r.key, "in", r.a, r.panic>>
      [] r.kind = "start" ->
            IF r.b \notin Start(d) THEN <<"starts in", r.b, "specified", Start(d)>>
            ELSE IF ~StateOk(d, r.b) THEN <<"inconsistent", r.b>> ELSE <<>>
      [] r.kind = "draw" -> IF ~StateOk(d, r.b) THEN <<"inconsistent", r.b>> ELSE DrawWhy(d, r)
      [] r.kind = "key" ->
            IF r.b.quit /\ \E t \in Keys(d, r.a, r.key) : t.quit THEN <<>>    \* nothing follows
            ELSE IF ~StateOk(d, r.b) THEN <<"key", r.key, "in", r.a, "inconsistent", r.b>>
            ELSE IF r.b \notin Keys(d, r.a, r.key) THEN <<"key", r.key, "in", r.a, "leads to", r.b, "specified", Keys(d, r.a, r.key)>>
            ELSE IF r.b # r.a /\ ~r.b.quit /\ ~r.draw THEN <<"key", r.key, "changes the view, the screen is not drawn again">>
            ELSE <<>>

Accepted == Verdict(i, Why(Rec(i)))
=============================================================================
