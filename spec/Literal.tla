------------------------------ MODULE Literal ------------------------------
(* What number literals denote.  Integers as little-endian bytes of their type;
   floating point literals as exact rationals, against which a bit pattern is
   checked to be the correctly rounded value.  TLC's integers have 32 bits, so
   large numbers are sequences of limbs in base 10000, least significant first.*)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE Lex

-----------------------------------------------------------------------------
(* Integers *)
IsHex(v) == Len(v) >= 2 /\ v[1] = 48 /\ v[2] = 120
DigitsOf(v) == SelectSeq(IF IsHex(v) THEN SubSeq(v, 3, Len(v)) ELSE v, LAMBDA c : c # 95)
RECURSIVE MulAdd(_, _, _, _)
MulAdd(b, k, m, c) ==    \* b*m + c in Len(b) bytes; the overflow is appended as the last element
    IF k > Len(b) THEN Append(b, c)
    ELSE LET x == b[k] * m + c IN MulAdd([b EXCEPT ![k] = x % 256], k + 1, m, x \div 256)
RECURSIVE Magnitude(_, _, _, _)
Magnitude(ds, k, base, b) ==
    IF k > Len(ds) THEN [ok |-> TRUE, b |-> b]
    ELSE LET r == MulAdd(b, 1, base, Nibble(ds[k])) IN
         IF r[Len(r)] # 0 THEN [ok |-> FALSE, b |-> b]
         ELSE Magnitude(ds, k + 1, base, SubSeq(r, 1, Len(b)))
RECURSIVE NegFrom(_, _, _)
NegFrom(b, k, c) ==
    IF k > Len(b) THEN b
    ELSE LET x == 255 - b[k] + c IN NegFrom([b EXCEPT ![k] = x % 256], k + 1, x \div 256)
Neg(b) == NegFrom(b, 1, 1)
IsZero(b) == \A k \in 1..Len(b) : b[k] = 0
IntSize == [u8 |-> 1, i8 |-> 1, u16 |-> 2, i16 |-> 2, u32 |-> 4, i32 |-> 4, u64 |-> 8, i64 |-> 8]
IntSigned == {"i8", "i16", "i32", "i64"}
(* the value of an integer literal in type t: [ok, b] *)
IntVal(neg, v, t) ==
    LET n == IntSize[t]
        ds == DigitsOf(v)
        m == Magnitude(ds, 1, IF IsHex(v) THEN 16 ELSE 10, [k \in 1..n |-> 0])
        top == m.b[n] >= 128
        minimum == m.b[n] = 128 /\ \A k \in 1..(n - 1) : m.b[k] = 0
    IN  IF ds = <<>> \/ ~m.ok THEN [ok |-> FALSE, b |-> m.b]
        ELSE IF ~neg THEN [ok |-> ~(t \in IntSigned /\ top), b |-> m.b]
        ELSE IF t \in IntSigned THEN [ok |-> ~top \/ minimum, b |-> Neg(m.b)]
        ELSE [ok |-> IsZero(m.b), b |-> m.b]
(* the successor, if it is in range *)
RECURSIVE IncB(_, _)
IncB(b, k) == IF k > Len(b) THEN b ELSE IF b[k] = 255 THEN IncB([b EXCEPT ![k] = 0], k + 1) ELSE [b EXCEPT ![k] = @ + 1]
IsMax(b, t) ==
    LET n == Len(b) IN
    /\ \A k \in 1..(n - 1) : b[k] = 255
    /\ b[n] = IF t \in IntSigned THEN 127 ELSE 255

-----------------------------------------------------------------------------
(* Natural numbers in base 10000 *)
Base == 10000
RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
Limb(a, k) == IF k <= Len(a) THEN a[k] ELSE 0
RECURSIVE SmallMulAdd(_, _, _, _, _)
SmallMulAdd(a, k, m, c, out) ==
    IF k > Len(a) THEN (IF c = 0 THEN out ELSE IF c < Base THEN Append(out, c) ELSE Append(Append(out, c % Base), c \div Base))
    ELSE LET x == a[k] * m + c IN SmallMulAdd(a, k + 1, m, x \div Base, Append(out, x % Base))
SMA(a, m, c) == SmallMulAdd(a, 1, m, c, <<>>)
RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(a, b, k, c, out) ==
    IF k > Len(a) /\ k > Len(b) THEN (IF c = 0 THEN out ELSE Append(out, c))
    ELSE LET x == Limb(a, k) + Limb(b, k) + c IN AddFrom(a, b, k + 1, x \div Base, Append(out, x % Base))
Add(a, b) == AddFrom(a, b, 1, 0, <<>>)
RECURSIVE MulFrom(_, _, _, _)
MulFrom(a, b, k, acc) ==
    IF k = 0 THEN acc ELSE MulFrom(a, b, k - 1, Add(<<0>> \o acc, SMA(a, b[k], 0)))
Mul(a, b) == Trim(MulFrom(a, b, Len(b), <<>>))
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, k) ==
    IF k = 0 THEN 0 ELSE IF a[k] < b[k] THEN -1 ELSE IF a[k] > b[k] THEN 1 ELSE CmpFrom(a, b, k - 1)
Cmp(x, y) ==
    LET a == Trim(x)
        b == Trim(y)
    IN  IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpFrom(a, b, Len(a))
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN <<1>>
           ELSE IF n <= 13 THEN SMA(Pow2(n - 1), 2, 0)
           ELSE LET h == Pow2(n \div 2) IN IF n % 2 = 0 THEN Mul(h, h) ELSE SMA(Mul(h, h), 2, 0)
Pow10(n) == [k \in 1..(n \div 4) |-> 0] \o <<CASE n % 4 = 0 -> 1 [] n % 4 = 1 -> 10 [] n % 4 = 2 -> 100 [] OTHER -> 1000>>
RECURSIVE NatOf(_, _, _, _)
NatOf(ds, k, base, a) == IF k > Len(ds) THEN Trim(a) ELSE NatOf(ds, k + 1, base, SMA(a, base, Nibble(ds[k])))
Nat_(ds, base) == NatOf(ds, 1, base, <<>>)
(* signed exponent text, saturated far outside any range *)
RECURSIVE SmallInt(_, _, _)
SmallInt(ds, k, x) == IF k > Len(ds) THEN x ELSE SmallInt(ds, k + 1, IF x > 100000 THEN 100001 ELSE 10 * x + ds[k] - 48)
ExpOf(v) == IF v = <<>> THEN 0
            ELSE IF v[1] = 45 THEN -SmallInt(v, 2, 0)
            ELSE IF v[1] = 43 THEN SmallInt(v, 2, 0)
            ELSE SmallInt(v, 1, 0)

RECURSIVE SubOneFrom(_, _)
SubOneFrom(a, k) == IF a[k] > 0 THEN [a EXCEPT ![k] = @ - 1] ELSE SubOneFrom([a EXCEPT ![k] = Base - 1], k + 1)
SubOne(a) == Trim(SubOneFrom(a, 1))

(* A literal as n * 10^e10 * 2^e2: [ok, n, e10, e2] *)
Find(v, s) == IF \E k \in 1..Len(v) : v[k] \in s THEN CHOOSE k \in 1..Len(v) : v[k] \in s /\ \A j \in 1..(k - 1) : v[j] \notin s ELSE 0
Rational(text) ==
    LET clean == SelectSeq(text, LAMBDA c : c # 95)
        hex == Len(clean) >= 2 /\ clean[1] = 48 /\ clean[2] \in {88, 120}
        body == IF hex THEN SubSeq(clean, 3, Len(clean)) ELSE clean
        x == Find(body, IF hex THEN {80, 112} ELSE {69, 101})
        man == IF x = 0 THEN body ELSE SubSeq(body, 1, x - 1)
        exp == IF x = 0 THEN 0 ELSE ExpOf(SubSeq(body, x + 1, Len(body)))
        dot == Find(man, {46})
        ds == SelectSeq(man, LAMBDA c : c # 46)
        frac == IF dot = 0 THEN 0 ELSE Len(man) - dot
    IN  [ok |-> ds # <<>>, n |-> Nat_(ds, IF hex THEN 16 ELSE 10),
         e10 |-> IF hex THEN 0 ELSE exp - frac, e2 |-> IF hex THEN exp - 4 * frac ELSE 0]

(* compare n*10^e10*2^e2 with m*2^k *)
CmpScaled(q, m, k) ==
    LET d == q.e2 - k
        l == Mul(Mul(q.n, IF q.e10 > 0 THEN Pow10(q.e10) ELSE <<1>>), IF d > 0 THEN Pow2(d) ELSE <<1>>)
        r == Mul(Mul(m, IF q.e10 < 0 THEN Pow10(-q.e10) ELSE <<1>>), IF d < 0 THEN Pow2(-d) ELSE <<1>>)
    IN  Cmp(l, r)
Prec == [f32 |-> 24, f64 |-> 53]
MinExp == [f32 |-> -149, f64 |-> -1074]    \* weight of the last bit of a subnormal
MaxBiased == [f32 |-> 255, f64 |-> 2047]
(* sign, biased exponent and mantissa of a bit pattern (little-endian bytes) *)
Bits(b, t) ==
    IF t = "f32"
    THEN [s |-> b[4] >= 128, x |-> (b[4] % 128) * 2 + b[3] \div 128,
          m |-> Trim(SMA(SMA(SMA(<<>>, 1, b[3] % 128), 256, b[2]), 256, b[1]))]
    ELSE [s |-> b[8] >= 128, x |-> (b[8] % 128) * 16 + b[7] \div 16,
          m |-> Trim(SMA(SMA(SMA(SMA(SMA(SMA(SMA(<<>>, 1, b[7] % 16), 256, b[6]), 256, b[5]), 256, b[4]), 256, b[3]), 256, b[2]), 256, b[1]))]
Even(a) == a = <<>> \/ a[1] % 2 = 0
(* far too large or far too small, without computing huge powers *)
Huge(q) == q.n # <<>> /\ (q.e10 > 400 \/ q.e2 > 1400)
Tiny(q) == q.n = <<>> \/ q.e10 < -460 \/ q.e2 < -1400
(* the largest finite value plus half a unit in the last place *)
TooLarge(q, t) ==
    IF Tiny(q) THEN FALSE ELSE IF Huge(q) THEN TRUE
    ELSE LET m == Pow2(Prec[t] + 1)    \* (2^(p+1) - 1) 2^k is halfway to the next power of two
             k == IF t = "f32" THEN 103 ELSE 970
         IN  CmpScaled(q, SubOne(m), k) >= 0
-----------------------------------------------------------------------------
(* is the finite pattern b the correctly rounded value of q (to even on ties)? *)
Rounded(q, b, t) ==
    LET f == Bits(b, t)
        full == IF f.x = 0 THEN f.m ELSE Add(f.m, Pow2(Prec[t] - 1))
        k == MinExp[t] + (IF f.x = 0 THEN 0 ELSE f.x - 1)
        atPower == f.m = <<>> /\ f.x > 1          \* the gap below is half as wide
        up == SMA(full, 2, 1)                      \* (2M+1) 2^(k-1)
        hi == CmpScaled(q, up, k - 1)
        lo == IF full = <<>> THEN 1
              ELSE IF atPower THEN CmpScaled(q, SubOne(SMA(full, 4, 0)), k - 2)
              ELSE CmpScaled(q, SubOne(SMA(full, 2, 0)), k - 1)
    IN  IF f.x = MaxBiased[t] THEN FALSE
        ELSE IF Tiny(q) THEN full = <<>>
        ELSE /\ hi < 0 \/ (hi = 0 /\ Even(f.m))
             /\ lo > 0 \/ (lo = 0 /\ Even(f.m))
(* what a float literal may denote: [ok] and a test of the observed bytes *)
IsInf(b, t) == LET f == Bits(b, t) IN f.x = MaxBiased[t] /\ f.m = <<>>
IsNan(b, t) == LET f == Bits(b, t) IN f.x = MaxBiased[t] /\ f.m # <<>>
Negative(b) == b[Len(b)] >= 128
=============================================================================
