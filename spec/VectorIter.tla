----------------------------- MODULE VectorIter -----------------------------
(* C06.  A vector view and the iterators over it.

   Two layers.  The ABSTRACT layer says what a slice iterator yields: a fixed
   sequence of items (sub-ranges of the slice), consumed from both ends.  The
   OPERATIONAL layer is what an implementation stores: the sub-range [lo, hi)
   of the slice that is still to be handed out, cut on every step.  TLC checks
   that the two agree in every reachable state and on every result
   (INVARIANT Agree); the rows exported by VectorIterGen are the abstract
   transitions, replayed into the real Vector and UnionVector. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxN,   \* longest vector
          Ks,     \* chunk sizes / window sizes
          Huge    \* stands for usize::MAX, as a skip count and as a size

Kinds == {"iter", "chunks", "rchunks", "chunks_exact", "rchunks_exact", "windows"}
Skips == {0, 1, 2, Huge}
None == <<>>

Min(x, y) == IF x < y THEN x ELSE y
Monus(x, y) == IF x < y THEN 0 ELSE x - y
CeilDiv(x, y) == IF x % y = 0 THEN x \div y ELSE (x \div y) + 1

-----------------------------------------------------------------------------
(* Abstract layer. Items are half-open index ranges <<lo, hi>>. *)
Items(kind, n, k) ==
  CASE kind = "iter"          -> [j \in 1..n |-> <<j - 1, j>>]
    [] kind = "chunks"        -> [j \in 1..CeilDiv(n, k) |-> <<(j - 1) * k, Min(j * k, n)>>]
    [] kind = "rchunks"       -> [j \in 1..CeilDiv(n, k) |-> <<Monus(n, j * k), n - (j - 1) * k>>]
    [] kind = "chunks_exact"  -> [j \in 1..(n \div k) |-> <<(j - 1) * k, j * k>>]
    [] kind = "rchunks_exact" -> [j \in 1..(n \div k) |-> <<n - j * k, n - (j - 1) * k>>]
    [] kind = "windows"       -> [j \in 1..Monus(n + 1, k) |-> <<j - 1, j - 1 + k>>]

Remainder(kind, n, k) ==
  CASE kind = "chunks_exact"  -> <<n - (n % k), n>>
    [] kind = "rchunks_exact" -> <<0, n % k>>
    [] OTHER -> None

Count(kind, n, k) == Len(Items(kind, n, k))

(* Items a+1..b are still to come. *)
Rest(kind, n, k, a, b) == SubSeq(Items(kind, n, k), a + 1, b)
ANth(kind, n, k, a, b, m) ==
  IF a + m < b THEN [res |-> Items(kind, n, k)[a + m + 1], a |-> a + m + 1, b |-> b]
               ELSE [res |-> None, a |-> b, b |-> b]
ANthBack(kind, n, k, a, b, m) ==
  IF a + m < b THEN [res |-> Items(kind, n, k)[b - m], a |-> a, b |-> b - m - 1]
               ELSE [res |-> None, a |-> a, b |-> a]

-----------------------------------------------------------------------------
(* Operational layer: the remaining sub-range [lo, hi) of the slice. *)
OStart(kind, n, k) ==
  CASE kind = "chunks_exact"  -> <<0, n - (n % k)>>
    [] kind = "rchunks_exact" -> <<n % k, n>>
    [] OTHER -> <<0, n>>

OFront(kind, k, lo, hi) ==   \* take one item at the front
  LET len == hi - lo IN
  CASE kind \in {"iter", "chunks", "chunks_exact"} ->
         LET s == IF kind = "iter" THEN 1 ELSE k IN
         IF len = 0 THEN [res |-> None, lo |-> lo, hi |-> hi]
         ELSE LET m == Min(s, len) IN [res |-> <<lo, lo + m>>, lo |-> lo + m, hi |-> hi]
    [] kind \in {"rchunks", "rchunks_exact"} ->
         IF len = 0 THEN [res |-> None, lo |-> lo, hi |-> hi]
         ELSE LET m == Monus(len, k) IN [res |-> <<lo + m, hi>>, lo |-> lo, hi |-> lo + m]
    [] kind = "windows" ->
         IF len < k THEN [res |-> None, lo |-> lo, hi |-> hi]
         ELSE [res |-> <<lo, lo + k>>, lo |-> lo + 1, hi |-> hi]

OBack(kind, k, lo, hi) ==   \* take one item at the back
  LET len == hi - lo IN
  CASE kind = "iter" ->
         IF len = 0 THEN [res |-> None, lo |-> lo, hi |-> hi]
         ELSE [res |-> <<hi - 1, hi>>, lo |-> lo, hi |-> hi - 1]
    [] kind \in {"chunks", "chunks_exact"} ->
         IF len = 0 THEN [res |-> None, lo |-> lo, hi |-> hi]
         ELSE LET m == ((len - 1) \div k) * k IN [res |-> <<lo + m, hi>>, lo |-> lo, hi |-> lo + m]
    [] kind \in {"rchunks", "rchunks_exact"} ->
         IF len = 0 THEN [res |-> None, lo |-> lo, hi |-> hi]
         ELSE LET m == ((len - 1) % k) + 1 IN [res |-> <<lo, lo + m>>, lo |-> lo + m, hi |-> hi]
    [] kind = "windows" ->
         IF len < k THEN [res |-> None, lo |-> lo, hi |-> hi]
         ELSE [res |-> <<hi - k, hi>>, lo |-> lo, hi |-> hi - 1]

OLen(kind, k, lo, hi) ==
  LET len == hi - lo IN
  CASE kind = "iter" -> len
    [] kind \in {"chunks", "rchunks"} -> CeilDiv(len, k)
    [] kind \in {"chunks_exact", "rchunks_exact"} -> len \div k
    [] kind = "windows" -> Monus(len + 1, k)

(* Skipping m items is dropping m items, cut short when they run out. *)
RECURSIVE ODropFront(_, _, _, _, _), ODropBack(_, _, _, _, _)
ODropFront(kind, k, lo, hi, m) ==
  IF m = 0 \/ OLen(kind, k, lo, hi) = 0 THEN OFront(kind, k, lo, hi)
  ELSE LET r == OFront(kind, k, lo, hi) IN ODropFront(kind, k, r.lo, r.hi, m - 1)
ODropBack(kind, k, lo, hi, m) ==
  IF m = 0 \/ OLen(kind, k, lo, hi) = 0 THEN OBack(kind, k, lo, hi)
  ELSE LET r == OBack(kind, k, lo, hi) IN ODropBack(kind, k, r.lo, r.hi, m - 1)

-----------------------------------------------------------------------------
VARIABLES kind, n, k,    \* which iterator over which slice
          a, b,          \* abstract position
          lo, hi,        \* operational position
          ares, ores     \* what the last step returned in each layer
vars == <<kind, n, k, a, b, lo, hi, ares, ores>>

VInit == /\ kind \in Kinds /\ n \in 0..MaxN /\ k \in Ks
         /\ (kind = "iter") => (k = 1)
         /\ a = 0 /\ b = Count(kind, n, k)
         /\ lo = OStart(kind, n, k)[1] /\ hi = OStart(kind, n, k)[2]
         /\ ares = None /\ ores = None

Step(A, O) == /\ a' = A.a /\ b' = A.b /\ ares' = A.res
              /\ lo' = O.lo /\ hi' = O.hi /\ ores' = O.res
              /\ UNCHANGED <<kind, n, k>>

TakeFront == Step(ANth(kind, n, k, a, b, 0), OFront(kind, k, lo, hi))
TakeBack == Step(ANthBack(kind, n, k, a, b, 0), OBack(kind, k, lo, hi))
SkipFront(m) == Step(ANth(kind, n, k, a, b, m), ODropFront(kind, k, lo, hi, m))
SkipBack(m) == Step(ANthBack(kind, n, k, a, b, m), ODropBack(kind, k, lo, hi, m))
VNext == TakeFront \/ TakeBack \/ \E m \in Skips : SkipFront(m) \/ SkipBack(m)

Agree == /\ ares = ores
         /\ OLen(kind, k, lo, hi) = b - a
         /\ 0 <= lo /\ lo <= hi /\ hi <= n
         /\ ares # None => (0 <= ares[1] /\ ares[1] <= ares[2] /\ ares[2] <= n)
(* Items never overlap except for windows, and cover the slice with the remainder. *)
Partition ==
  kind # "windows" =>
    LET it == Items(kind, n, k)
        covered == UNION {it[j][1]..(it[j][2] - 1) : j \in 1..Len(it)}
        r == Remainder(kind, n, k)
        rem == IF r = None THEN {} ELSE r[1]..(r[2] - 1)
    IN covered \cup rem = 0..(n - 1) /\ covered \cap rem = {}

-----------------------------------------------------------------------------
(* Direct operations on a vector of length n. *)
GetIdx(nn, ix) == IF ix < nn THEN <<ix, ix + 1>> ELSE None
(* A range given by two bounds, each <<kind, value>>. *)
BoundLo(bd) == CASE bd[1] = "incl" -> bd[2] [] bd[1] = "excl" -> bd[2] + 1 [] bd[1] = "unb" -> 0
BoundHi(bd, nn) == CASE bd[1] = "incl" -> bd[2] + 1 [] bd[1] = "excl" -> bd[2] [] bd[1] = "unb" -> nn
GetRange(nn, s, e) ==
  LET l == BoundLo(s) h == BoundHi(e, nn) IN
  IF l <= h /\ h <= nn THEN <<l, h>> ELSE None
SplitAt(nn, m) == IF m <= nn THEN <<<<0, m>>, <<m, nn>>>> ELSE None
SplitFirst(nn) == IF nn = 0 THEN None ELSE <<<<0, 1>>, <<1, nn>>>>
SplitLast(nn) == IF nn = 0 THEN None ELSE <<<<nn - 1, nn>>, <<0, nn - 1>>>>
=============================================================================
