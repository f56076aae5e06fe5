------------------------------- MODULE Values -------------------------------
(* Comparing values of generated types.  Values are written as in Wire:
   <<"sc", bytes>>, <<"str", bytes>>, <<"vec", n, values>>, <<"st", values>>,
   <<"un", variant, value>>, <<"tab", j, values>>, <<"none">>.

   Cmp gives -1, 0, 1, or 2 when the values are not ordered (a NaN decides). *)
EXTENDS Layout

Unordered == 2
RECURSIVE BytesFrom(_, _, _)
BytesFrom(a, b, k) ==      \* lexicographic; a shorter text comes first
    IF k > Len(a) THEN (IF k > Len(b) THEN 0 ELSE -1)
    ELSE IF k > Len(b) THEN 1
    ELSE IF a[k] < b[k] THEN -1 ELSE IF a[k] > b[k] THEN 1
    ELSE BytesFrom(a, b, k + 1)
RECURSIVE TopDown(_, _, _)
TopDown(a, b, k) ==        \* little-endian magnitudes of the same length
    IF k = 0 THEN 0 ELSE IF a[k] < b[k] THEN -1 ELSE IF a[k] > b[k] THEN 1 ELSE TopDown(a, b, k - 1)
IntCmp(signed, a, b) ==
    LET n == Len(a)
        f(x) == IF signed THEN [x EXCEPT ![n] = (@ + 128) % 256] ELSE x
    IN  TopDown(f(a), f(b), n)

(* IEEE comparison of stored floats *)
Magnitude(b) == [b EXCEPT ![Len(b)] = @ % 128]
Minus(b) == b[Len(b)] >= 128
Infinity(n) == IF n = 4 THEN <<0, 0, 128, 127>> ELSE <<0, 0, 0, 0, 0, 0, 240, 127>>
NaN(b) == TopDown(Magnitude(b), Infinity(Len(b)), Len(b)) = 1
Finite(b) == TopDown(Magnitude(b), Infinity(Len(b)), Len(b)) = -1
Nought(b) == \A k \in 1..Len(b) : Magnitude(b)[k] = 0
FloatCmp(a, b) ==
    IF NaN(a) \/ NaN(b) THEN Unordered
    ELSE IF Nought(a) /\ Nought(b) THEN 0
    ELSE IF Minus(a) # Minus(b) THEN (IF Minus(a) THEN -1 ELSE 1)
    ELSE LET c == TopDown(Magnitude(a), Magnitude(b), Len(a)) IN IF Minus(a) THEN -c ELSE c

RECURSIVE Cmp(_, _, _, _), CmpAll(_, _, _, _, _), Equal(_, _, _, _)
(* the types of the parts of a value of type t *)
PartTypes(S, t, v) ==
    CASE v[1] = "st" -> [k \in 1..Len(v[2]) |-> D(S, t).f[k].t]
      [] v[1] = "tab" -> LET fs == SelectSeq(D(S, t).f, LAMBDA f : ~f.dep) IN [k \in 1..Len(v[3]) |-> fs[k].t]
      [] v[1] = "vec" -> [k \in 1..Len(v[3]) |-> t[2]]
Parts(v) == IF v[1] = "st" THEN v[2] ELSE v[3]
CmpAll(S, ts, a, b, k) ==
    IF k > Len(a) THEN (IF k > Len(b) THEN 0 ELSE -1)
    ELSE IF k > Len(b) THEN 1
    ELSE LET c == Cmp(S, ts[k], a[k], b[k]) IN IF c # 0 THEN c ELSE CmpAll(S, ts, a, b, k + 1)
Cmp(S, t, a, b) ==
    IF a[1] = "none" \/ b[1] = "none"
    THEN (IF a[1] = b[1] THEN 0 ELSE IF a[1] = "none" THEN -1 ELSE 1)
    ELSE CASE a[1] = "sc" ->
                  IF Kind(S, t) = "enum" THEN IntCmp(D(S, t).base \in SignedInts, a[2], b[2])
                  ELSE IF t[1] \in {"f32", "f64"} THEN FloatCmp(a[2], b[2])
                  ELSE IntCmp(t[1] \in SignedInts, a[2], b[2])
           [] a[1] = "str" -> BytesFrom(a[2], b[2], 1)
           [] a[1] = "un" -> IF a[2] # b[2] THEN (IF a[2] < b[2] THEN -1 ELSE 1)
                             ELSE Cmp(S, D(S, t).v[a[2]].t, a[3], b[3])
           [] OTHER -> CmpAll(S, TLCEval(PartTypes(S, t, IF Len(Parts(a)) >= Len(Parts(b)) THEN a ELSE b)), Parts(a), Parts(b), 1)
Equal(S, t, a, b) ==
    IF a[1] # b[1] THEN FALSE
    ELSE CASE a[1] = "none" -> TRUE
           [] a[1] \in {"sc", "str"} -> Cmp(S, t, a, b) = 0
           [] a[1] = "un" -> a[2] = b[2] /\ Equal(S, D(S, t).v[a[2]].t, a[3], b[3])
           [] OTHER -> Len(Parts(a)) = Len(Parts(b)) /\ LET ts == TLCEval(PartTypes(S, t, a))
                       IN  \A k \in 1..Len(ts) : Equal(S, ts[k], Parts(a)[k], Parts(b)[k])

(* every part is a finite number *)
RECURSIVE AllFinite(_, _, _)
AllFinite(S, t, a) ==
    CASE a[1] \in {"none", "str"} -> TRUE
      [] a[1] = "sc" -> t[1] \notin {"f32", "f64"} \/ Finite(a[2])
      [] a[1] = "un" -> AllFinite(S, D(S, t).v[a[2]].t, a[3])
      [] OTHER -> LET ts == TLCEval(PartTypes(S, t, a)) IN \A k \in 1..Len(ts) : AllFinite(S, ts[k], Parts(a)[k])

-----------------------------------------------------------------------------
(* What a declaration refers to, transitively: <<scalar>> types and declarations *)
RECURSIVE Core(_)
Core(t) == IF t[1] = "vec" THEN Core(t[2]) ELSE t
Direct(S, j) ==      \* deprecated fields included: whether they count is left open
    LET x == S.d[j] IN
    CASE x.k = "enum" -> {}
      [] x.k = "union" -> {Core(x.v[k].t) : k \in 1..Len(x.v)}
      [] OTHER -> {Core(x.f[k].t) : k \in 1..Len(x.f)}
RECURSIVE Grow(_, _)
Grow(S, R) ==
    LET N == R \cup UNION {Direct(S, t[2]) : t \in {t \in R : t[1] = "ref"}}
    IN  IF N = R THEN R ELSE Grow(S, N)
Within(S, j) == Grow(S, {<<"ref", j>>})
(* no part is a floating point number: the values are totally ordered *)
Total(S, j) == \A t \in Within(S, j) : t[1] \notin {"f32", "f64"}
HasEnum(S, j) == \E t \in Within(S, j) : Kind(S, t) = "enum"
HasText(S, j) == \E t \in Within(S, j) : Kind(S, t) \in {"table", "str"}    \* reading can fail

RECURSIVE ZeroOf(_, _)
ZeroOf(S, t) ==
    IF Kind(S, t) = "struct" THEN <<"st", [k \in 1..Len(D(S, t).f) |-> ZeroOf(S, D(S, t).f[k].t)]>>
    ELSE <<"sc", Zeros(ScalarSize[t[1]])>>
=============================================================================
