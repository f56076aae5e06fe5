------------------------------ MODULE WireForm ------------------------------
(* C02: judges finished buffers.  A record holds the schema number s, the root
   table j, the bytes b and the file identifier id (or <<>>).                *)
EXTENDS WellFormed, Batch, Json, IOUtils

Schemas == JsonDeserialize(IOEnv.SCHEMAS)
Tables == TLCEval([s \in 1..Len(Schemas) |-> TLCEval(LT(Schemas[s]))])

Header(r) == IF r.id = <<>> THEN <<0, 4>> ELSE <<0, 8>>

Walk(r) ==
    LET cx == [b |-> r.b, L |-> Tables[r.s]]
        hd == Header(r)
    IN  IF Len(r.b) < hd[2] THEN Fault(<<"no header", Len(r.b)>>)
        ELSE Join([x |-> {hd}, w |-> IF r.id # <<>> /\ Bytes(r.b, 4, 4) # r.id THEN {<<"file identifier", Bytes(r.b, 4, 4)>>} ELSE {}],
                  WRef(cx, <<"ref", r.j>>, 0))

Why(r) ==
    IF r.panic # "" THEN <<"writing panics", r.panic>>
    ELSE LET w == Walk(r) IN
         IF w.w # {} THEN <<"faults", w.w>>
         ELSE LET o == Overlaps(w.x) IN
              IF o # {} THEN <<"objects overlap", CHOOSE p \in o : TRUE>>
              ELSE <<>>

Accepted == Verdict(i, Why(Rec(i)))
=============================================================================
