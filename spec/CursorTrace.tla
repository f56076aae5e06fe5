---------------------------- MODULE CursorTrace -----------------------------
(* Judges recorded runs of programs over the real cursors.  A record is
   [n, prog, runs], a run [type, raw, left, bad, drops, again]:
     raw    what the memory of each element holds afterwards, 0 for its old content
     left   sizes of the cursors before they were dropped in the end
     bad    how many drops panicked
     drops  the values dropped by the program
     again  how often each element was dropped when the array handed out was dropped
            (empty when it was not handed out)
   or [n, l, r, op, outcome]: splitting a cursor for n elements into l and r;
   or [n, k, early]: initialisation stopped by a panic with k of n elements written *)
EXTENDS Batch, Integers, Sequences, FiniteSets
C == INSTANCE Cursor WITH MaxN <- 0, Depth <- 0, n <- 0, arr <- <<>>, cur <- <<>>, bad <- 0, next <- 0, prog <- <<>>

WhyRun(r, u) ==
    LET s == C!After(C!Start(r.n), r.prog, 1)
        e == C!Close(s)
        out == e.bad = 0
    IN  IF u.left # [c \in 1..Len(s.cur) |-> s.cur[c][2]] THEN <<u.type, "sizes of the cursors", u.left>>
        ELSE IF u.bad # e.bad THEN <<u.type, "panics of dropped cursors", u.bad, e.bad>>
        ELSE IF u.type # "zst" /\ u.raw # e.arr THEN <<u.type, "memory", u.raw, e.arr>>
        ELSE IF u.drops # <<>> THEN <<u.type, "dropped", u.drops>>
        ELSE IF u.again # (IF out /\ u.type \in {"rc", "zst"} THEN [x \in 1..r.n |-> 1] ELSE <<>>) THEN <<u.type, "drops of the result", u.again>>
        ELSE <<>>
Why(r) ==
    IF "runs" \in DOMAIN r
    THEN LET h == {k \in 1..Len(r.runs) : WhyRun(r, r.runs[k]) # <<>>} IN
         IF h = {} THEN <<>> ELSE WhyRun(r, r.runs[CHOOSE k \in h : TRUE])
    ELSE IF "outcome" \in DOMAIN r
    THEN IF (r.outcome = "ran") = (r.n = r.l + r.r) THEN <<>> ELSE <<"a cursor for", r.n, r.op, r.l, r.r, r.outcome>>
    \* nobody may go on as if the array were complete
    ELSE IF (r.early = "returned") # (r.k = r.n) THEN <<"stopped early", r.early, r.k, r.n>>
    ELSE <<>>
Accepted == Verdict(i, Why(Rec(i)))
=============================================================================
