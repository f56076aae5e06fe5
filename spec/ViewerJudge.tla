---------------------------- MODULE ViewerJudge -----------------------------
(* C24: judges recorded runs of the viewer.  A record is
     files, main  the schema file and what it includes
     name     the type asked for (bytes)
     data, tty    as in Viewer
     code     exit code (negative: ended by a signal)
     errs     error diagnostics;  said: it printed something
     near     the types it proposed (bytes)
     same     no file was changed
     steps    what it did in the terminal: [act, raw, alt, cursor, got, want]:
              "start", a key, "resize" or "quit"; got and want are digests of the
              screen shown and of the one the inspector draws in this state
     after    [raw, alt, cursor] of the terminal at the end                  *)
EXTENDS Batch, Schema, Viewer

RECURSIVE Cut(_, _, _)
Cut(b, p, cur) ==
    IF p > Len(b) THEN <<cur>>
    ELSE IF b[p] = 46 THEN <<cur>> \o Cut(b, p + 1, <<>>)
    ELSE Cut(b, p + 1, Append(cur, b[p]))

RECURSIVE Play(_, _, _)
Play(V, steps, k) ==      \* V: the viewers there may be before step k
    IF k > Len(steps) THEN <<>>
    ELSE LET s == steps[k]
             next == UNION {IF s.act = "quit" THEN Quit(v) ELSE Step(v) : v \in V}
             fits == {v \in next : v.term = [raw |-> s.raw, alt |-> s.alt, cursor |-> s.cursor]}
         IN  IF fits = {} THEN <<"step", k, s.act, "the terminal is", s.raw, s.alt, s.cursor>>
             ELSE IF s.got # s.want THEN <<"step", k, s.act, "the screen does not show the current state">>
             ELSE Play(fits, steps, k + 1)

Why(r) ==
    LET M == Meaning([files |-> r.files, main |-> r.main])
        there == r.main # <<0>>
        acc == there /\ M.why = {}
        at == {k \in 1..Len(M.E) : M.E[k].path = Cut(r.name, 1, <<>>)}
        root == IF acc /\ at # {} THEN M.E[CHOOSE k \in at : TRUE].d.k ELSE "none"
        c == [data |-> r.data, acc |-> acc, root |-> root, tty |-> r.tty]
        tables == IF acc THEN {Dotted(M.E[k].path) : k \in {k \in 1..Len(M.E) : M.E[k].d.k = "table"}} ELSE {}
        near == {t \in tables : Matches(r.name, t)}
        told == {r.near[k] : k \in 1..Len(r.near)}
        proposes == r.data /\ acc /\ root = "none"
    IN  IF r.code \notin {0, 1} THEN <<"crash", r.code>>
        ELSE IF Opens(c) # (r.code = 0) THEN <<IF Opens(c) THEN "does not open" ELSE "opens", root, r.code>>
        ELSE IF ~r.same THEN <<"changes files">>
        ELSE IF r.after # Normal THEN <<"leaves the terminal", r.after>>
        ELSE IF ~Opens(c) THEN
             IF r.steps # <<>> THEN <<"takes the terminal">>
             ELSE IF r.data /\ ~acc /\ r.errs = 0 THEN <<"refuses the schema without a diagnostic">>
             ELSE IF acc /\ r.data /\ r.errs # 0 /\ root # "table" THEN <<"an error diagnostic for a valid schema">>
             ELSE IF ~r.said THEN <<"fails without a word">>
             ELSE IF Cardinality(told) # Len(r.near) THEN <<"proposes a type twice">>
             ELSE IF told \ (IF proposes THEN near ELSE {}) # {} THEN <<"proposes", told>>
             ELSE IF proposes /\ Len(r.near) # (IF Cardinality(near) < 5 THEN Cardinality(near) ELSE 5) THEN <<"proposes", Len(r.near), "of", Cardinality(near)>>
             ELSE <<>>
        ELSE IF Len(r.steps) = 0 \/ r.steps[1].act # "start" THEN <<"takes no terminal">>
        ELSE LET s == r.steps[1]
                 V == {v \in Start(c, New) : v.term = [raw |-> s.raw, alt |-> s.alt, cursor |-> s.cursor]}
             IN  IF V = {} THEN <<"starts with the terminal", s.raw, s.alt, s.cursor>>
                 ELSE IF s.got # s.want THEN <<"the first screen does not show the first state">>
                 ELSE Play(V, r.steps, 2)
Accepted == Verdict(i, Why(Rec(i)))
=============================================================================
