---------------------------- MODULE BuilderWide ----------------------------
(* C01, C03 and C05 for large contents: the behaviours of BuilderModel with
   every string and vector blown up to tens of thousands of elements.  Contents
   and recorded buffers are runs <<byte, count>>, adjacent runs differing, so
   that the size of a record does not depend on the size of the buffer.
   A record holds the operations, what was observed after each of them (got:
   distances from the end, buffer, and what the generated reader returned after
   finishing), and the same for a new builder from operation skip + 1 on.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Batch, IOUtils

On(x) == x \in {IOEnv.VCACHE, IOEnv.SCACHE, IOEnv.BCACHE}   \* "v", "s", "b" or "-"

RECURSIVE Total(_, _)
Total(R, q) == IF q = 0 THEN 0 ELSE Total(R, q - 1) + R[q][2]
Size(R) == Total(R, Len(R))
RECURSIVE Norm(_, _, _)
Norm(R, q, acc) ==      \* merges equal neighbours, drops empty runs
    IF q > Len(R) THEN acc
    ELSE IF R[q][2] = 0 THEN Norm(R, q + 1, acc)
    ELSE IF acc # <<>> /\ acc[Len(acc)][1] = R[q][1]
         THEN Norm(R, q + 1, [acc EXCEPT ![Len(acc)] = <<@[1], @[2] + R[q][2]>>])
    ELSE Norm(R, q + 1, Append(acc, <<R[q][1], R[q][2]>>))
N0(R) == Norm(R, 1, <<>>)
RECURSIVE Cut(_, _, _, _, _, _)
Cut(R, q, at, p, n, acc) ==  \* the n bytes from p on; run q starts at position at
    IF q > Len(R) \/ at >= p + n THEN acc
    ELSE LET e == at + R[q][2]
             lo == IF at > p THEN at ELSE p
             hi == IF e < p + n THEN e ELSE p + n
         IN  Cut(R, q + 1, e, p, n, IF lo < hi THEN Append(acc, <<R[q][1], hi - lo>>) ELSE acc)
Sub(R, p, n) == IF p < 0 \/ n < 0 THEN <<>> ELSE Cut(R, 1, 0, p, n, <<>>)
RECURSIVE Flat(_)
Flat(R) == IF R = <<>> THEN <<>> ELSE [x \in 1..Head(R)[2] |-> Head(R)[1]] \o Flat(Tail(R))
Num(bs) == IF bs = <<>> THEN 0 ELSE LET f[q \in 1..(Len(bs) + 1)] == IF q > Len(bs) THEN 0 ELSE bs[q] + 256 * f[q + 1] IN f[1]
\* a length or offset: the reader's buffers stay below 2^31 bytes
U32(R, p) == LET b == Flat(Sub(R, p, 4)) IN IF Len(b) # 4 \/ b[4] > 127 THEN -1 ELSE Num(b)
I32(R, p) == LET b == Flat(Sub(R, p, 4)) IN
             IF Len(b) # 4 THEN 0 ELSE IF b[4] < 128 THEN Num(b) ELSE -(1 + Num([q \in 1..4 |-> 255 - b[q]]))
U16(R, p) == Num(Flat(Sub(R, p, 2)))
LE4(x) == <<<<x % 256, 1>>, <<(x \div 256) % 256, 1>>, <<(x \div 65536) % 256, 1>>, <<(x \div 16777216) % 256, 1>>>>

(* elements of v64 are runs of 8-byte values; their bytes *)
RECURSIVE Wide(_)
Wide(x) == IF x = <<>> THEN <<>>
           ELSE LET one == [q \in 1..8 |-> <<Head(x)[1][q], 1>>]
                    all == IF \A q \in 1..8 : Head(x)[1][q] = Head(x)[1][1] THEN <<<<Head(x)[1][1], 8 * Head(x)[2]>>>>
                           ELSE one   \* other values are not repeated
                IN  all \o Wide(Tail(x))
RECURSIVE Count(_)
Count(x) == IF x = <<>> THEN 0 ELSE Head(x)[2] + Count(Tail(x))

StrBytes(x) == N0(LE4(Size(x)) \o x \o <<<<0, 1>>>>)
VecBytes(x) == N0(LE4(Size(x)) \o x)
V64Bytes(x) == N0(LE4(Count(x)) \o Wide(x))
IsStr(R, p, x) == Sub(R, p, Size(x) + 5) = StrBytes(x)

(* is operation k's object at position p of the buffer R? *)
RECURSIVE Holds(_, _, _, _)
At(R, p) == p + U32(R, p)     \* where the offset at p leads
Holds(ops, k, R, p) ==
    LET o == ops[k] IN
    CASE o.op = "str" -> IsStr(R, p, o.x)
      [] o.op \in {"bytes", "ibytes"} -> Sub(R, p, Size(o.x) + 4) = VecBytes(o.x)
      [] o.op = "v64" -> Sub(R, p, 8 * Count(o.x) + 4) = V64Bytes(o.x)
      [] o.op = "vstr" -> U32(R, p) = Len(o.x) /\ \A q \in 1..Len(o.x) : IsStr(R, At(R, p + 4 * q), o.x[q])
      [] o.op = "vref" -> U32(R, p) = Len(o.x) /\ \A q \in 1..Len(o.x) : Holds(ops, o.x[q] + 1, R, At(R, p + 4 * q))
      [] o.op = "un" -> o.tag = 2 \/ Holds(ops, o.x + 1, R, p)
      [] o.op = "tab" ->
            LET v == p - I32(R, p)
                so(s) == IF 4 + 2 * s + 2 <= U16(R, v) THEN U16(R, v + 4 + 2 * s) ELSE 0
                ref(s, x) == IF x < 0 THEN so(s) = 0 ELSE so(s) # 0 /\ Holds(ops, x + 1, R, At(R, p + so(s)))
            IN  /\ v >= 0
                /\ ref(2, o.s) /\ ref(3, o.b) /\ ref(4, o.n) /\ ref(6, o.u) /\ ref(7, o.vs) /\ ref(8, o.i) /\ ref(9, o.v)
                /\ (o.u < 0) = (so(5) = 0)
                /\ IF o.a = 0 THEN so(0) = 0 ELSE Flat(Sub(R, p + so(0), 1)) = <<o.a>>
                /\ IF o.e = 5 THEN so(10) = 0 ELSE U16(R, p + so(10)) = o.e

Aligned(o, p) == CASE o.op = "v64" -> (p + 4) % 8 = 0
                   [] o.op = "un" -> TRUE
                   [] OTHER -> p % 4 = 0

Made == {"str", "bytes", "ibytes", "v64", "vstr", "vref", "un", "tab"}
Start(ops, k) == LET q == {q \in 1..k : ops[q].op = "clear"} IN IF q = {} THEN 1 ELSE 1 + CHOOSE x \in q : \A y \in q : y <= x

(* what the generated reader says about the root table: the content of its
   string, its two byte vectors and its vector of words                      *)
Opt(ops, x) == IF x < 0 THEN <<>> ELSE <<ops[x + 1].x>>
Read(ops, o) == <<Opt(ops, o.s), Opt(ops, o.b), Opt(ops, o.i), Opt(ops, o.v)>>

Judge(r, k) ==
    LET ops == r.ops
        o == ops[k]
        g == r.got[k]
        p == IF k = 1 THEN <<>> ELSE r.got[k - 1].buf
        n == Size(g.buf)
        st == Start(ops, k)
        before == {q \in st..(k - 1) : ops[q].op = o.op /\ ops[q].op # "fin"}
    IN
    IF g.panic # "" THEN <<"panic", g.panic>>
    ELSE IF o.op = "boom" THEN <<>>
    ELSE IF g.len # n \/ g.empty # (n = 0) THEN <<"len or is_empty">>
    ELSE IF o.op = "clear" THEN IF g.buf # <<>> THEN <<"not empty after clear">> ELSE <<>>
    ELSE IF n < Size(p) \/ Sub(g.buf, n - Size(p), Size(p)) # p THEN <<"earlier bytes changed">>
    ELSE IF o.op = "fin" THEN
        LET hd == IF o.id = <<>> THEN 4 ELSE 8
            objs == {q \in st..(k - 1) : ops[q].op \in Made}
        IN  IF n - Size(p) - hd > 64 THEN <<"finish adds", n - Size(p)>>
            ELSE IF U32(g.buf, 0) # n - r.got[o.r + 1].off[1] THEN <<"root offset", U32(g.buf, 0)>>
            ELSE IF o.id # <<>> /\ Flat(Sub(g.buf, 4, 4)) # o.id THEN <<"file identifier">>
            ELSE IF \E q \in objs : ~Aligned(ops[q], n - r.got[q].off[1]) THEN <<"misaligned">>
            ELSE IF \E q \in objs : ~Holds(ops, q, g.buf, n - r.got[q].off[1]) THEN <<"object changed later">>
            ELSE IF g.read # Read(ops, ops[o.r + 1]) THEN <<"read back", g.read, "wanted", Read(ops, ops[o.r + 1])>>
            ELSE <<>>
    ELSE IF ~Holds(ops, k, g.buf, n - g.off[1]) THEN <<"wrong content">>
    ELSE IF On("s") /\ o.op = "str" /\ \E q \in before : ops[q].x = o.x /\ (r.got[q].off # g.off \/ g.buf # p)
         THEN <<"equal strings stored twice">>
    ELSE IF On("b") /\ o.op \in {"bytes", "ibytes"} /\ \E q \in before : ops[q].x = o.x /\ (r.got[q].off # g.off \/ g.buf # p)
         THEN <<"equal byte vectors stored twice">>
    ELSE <<>>

Why(r) ==
    LET n == Len(r.got)
        bad == {k \in 1..n : Judge(r, k) # <<>>}
        m == Len(r.fresh)
        diff == {q \in 1..m : r.skip + q <= n /\ (r.fresh[q].buf # r.got[r.skip + q].buf \/ r.fresh[q].off # r.got[r.skip + q].off
                                                  \/ r.fresh[q].panic # r.got[r.skip + q].panic)}
        k0 == CHOOSE k \in bad : \A x \in bad : k <= x
    IN  IF bad # {} THEN <<"operation", k0>> \o Judge(r, k0)
        ELSE IF n # Len(r.ops) THEN <<"stopped after", n>>
        ELSE IF diff # {} THEN <<"differs from a new builder at operation", r.skip + (CHOOSE q \in diff : \A x \in diff : q <= x)>>
        ELSE <<>>

Accepted == Verdict(i, Why(Rec(i)))
=============================================================================
