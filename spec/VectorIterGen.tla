--------------------------- MODULE VectorIterGen ----------------------------
(* Exports the transitions of the abstract layer of VectorIter as rows for the
   replay harness: one row per (kind, n, k, a, b) with everything observable
   there, and one row per vector length with its direct operations. *)
EXTENDS VectorIter, Json, IOUtils, SequencesExt

KsOf(kd) == IF kd = "iter" THEN {1} ELSE Ks
Row(kd, nn, kk, aa, bb) ==
  LET skips == SetToSortSeq(Skips, LAMBDA x, y: x < y)
      f(m) == LET r == ANth(kd, nn, kk, aa, bb, m) IN <<m, r.res, r.a, r.b>>
      g(m) == LET r == ANthBack(kd, nn, kk, aa, bb, m) IN <<m, r.res, r.a, r.b>>
  IN [t |-> "it", kind |-> kd, n |-> nn, k |-> kk, a |-> aa, b |-> bb,
      rest |-> Rest(kd, nn, kk, aa, bb), rem |-> Remainder(kd, nn, kk),
      fw |-> [j \in 1..Len(skips) |-> f(skips[j])],
      bw |-> [j \in 1..Len(skips) |-> g(skips[j])]]

(* All reachable (a, b) positions are 0 <= a <= b <= Count. *)
ItRows == UNION {UNION {UNION {UNION {{Row(kd, nn, kk, aa, bb) : bb \in aa..Count(kd, nn, kk)}
            : aa \in 0..Count(kd, nn, kk)} : kk \in KsOf(kd)} : nn \in 0..MaxN} : kd \in Kinds}

Pts(nn) == SetToSortSeq((0..(nn + 1)) \cup {Huge}, LAMBDA x, y: x < y)
Bounds(nn) == <<<<"unb", 0>>>> \o
   [j \in 1..Len(Pts(nn)) |-> <<"incl", Pts(nn)[j]>>] \o [j \in 1..Len(Pts(nn)) |-> <<"excl", Pts(nn)[j]>>]
VecRow(nn) ==
  LET ps == Pts(nn) bs == Bounds(nn) IN
  [t |-> "vec", n |-> nn,
   get |-> [j \in 1..Len(ps) |-> <<ps[j], GetIdx(nn, ps[j])>>],
   split |-> [j \in 1..Len(ps) |-> <<ps[j], SplitAt(nn, ps[j])>>],
   sf |-> SplitFirst(nn), sl |-> SplitLast(nn),
   ranges |-> [j \in 1..(Len(bs) * Len(bs)) |->
                LET s == bs[((j - 1) \div Len(bs)) + 1] e == bs[((j - 1) % Len(bs)) + 1]
                IN <<s, e, GetRange(nn, s, e)>>]]
VecRows == {VecRow(nn) : nn \in 0..MaxN}

(* One idle state; the rows are written when it has been explored. *)
GInit == /\ kind = "iter" /\ n = 0 /\ k = 1 /\ a = 0 /\ b = 0 /\ lo = 0 /\ hi = 0
         /\ ares = None /\ ores = None
GNext == FALSE /\ UNCHANGED vars
Export == ndJsonSerialize(IOEnv.OUT, SetToSeq(ItRows) \o SetToSeq(VecRows))
=============================================================================
