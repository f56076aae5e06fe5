---------------------------- MODULE BuilderTrace ----------------------------
(* C03 and C05: judges the recorded run of a sequence of builder operations.
   A record holds the operations ops, for each one what was observed (got:
   the offsets returned, as distances from the end, and the whole buffer), and
   the same for a new builder that executed only the operations after the last
   clear (fresh, from operation skip + 1 on).                                *)
EXTENDS WellFormed, Batch, Json, IOUtils

Schemas == JsonDeserialize(IOEnv.SCHEMAS)
Tables == TLCEval([s \in 1..Len(Schemas) |-> TLCEval(LT(Schemas[s]))])
L == Tables[1]
On(x) == x \in {IOEnv.VCACHE, IOEnv.SCACHE, IOEnv.BCACHE}   \* "v", "s", "b" or "-"

NT == <<"ref", 2>>
UT == 3

LE4(x) == <<x % 256, (x \div 256) % 256, (x \div 65536) % 256, (x \div 16777216) % 256>>

(* what was asked for *)
RECURSIVE Want(_, _)
Opt(ops, x) == IF x < 0 THEN <<"none">> ELSE Want(ops, x + 1)
Bvec(x) == <<"vec", Len(x), [q \in 1..Len(x) |-> <<"sc", <<x[q]>>>>]>>
Want(ops, k) ==
    LET o == ops[k] IN
    CASE o.op = "str" -> <<"str", o.x>>
      [] o.op \in {"bytes", "ibytes"} -> Bvec(o.x)
      [] o.op = "v64" -> <<"vec", Len(o.x), [q \in 1..Len(o.x) |-> <<"sc", o.x[q]>>]>>
      [] o.op = "vstr" -> <<"vec", Len(o.x), [q \in 1..Len(o.x) |-> <<"str", o.x[q]>>]>>
      [] o.op = "vref" -> <<"vec", Len(o.x), [q \in 1..Len(o.x) |-> Want(ops, o.x[q] + 1)]>>
      [] o.op = "un" -> <<"un", o.tag, IF o.tag = 2 THEN o.x ELSE Want(ops, o.x + 1)>>
      [] o.op = "tab" -> <<"tab", 2, <<<<"sc", <<o.a>>>>, <<"sc", o.w>>, Opt(ops, o.s), Opt(ops, o.b), Opt(ops, o.n),
                                      Opt(ops, o.u), Opt(ops, o.vs), Opt(ops, o.i), Opt(ops, o.v), <<"sc", <<o.e, 0>>>>>>>>

TypeOf(o) ==
    CASE o.op = "str" -> <<"str">>
      [] o.op = "bytes" -> <<"vec", <<"u8">>>>
      [] o.op = "ibytes" -> <<"vec", <<"i8">>>>
      [] o.op = "v64" -> <<"vec", <<"u64">>>>
      [] o.op \in {"vstr", "vref"} -> <<"vec", <<"str">>>>
      [] o.op = "tab" -> NT

(* what lies in the buffer, at distance off from its end: an offset to it is
   put in front of the buffer and read                                       *)
Cx(buf, off) == [b |-> LE4(Len(buf) - off + 4) \o buf, L |-> L, k |-> 1000, mode |-> "get", xv |-> TRUE, dev |-> FALSE]
Stored(o, buf, off) ==
    LET r == IF o.op = "un" THEN UnionAt(Cx(buf, off), UT, 0, o.tag, 0, 20) ELSE InlineView(Cx(buf, off), 0, TypeOf(o), 0, 20)
    IN  IF IsBad(r) THEN r ELSE r[2]

Suffix(p, b) == Len(p) <= Len(b) /\ SubSeq(b, Len(b) - Len(p) + 1, Len(b)) = p

Start(ops, k) == LET q == {q \in 1..k : ops[q].op = "clear"} IN IF q = {} THEN 1 ELSE 1 + CHOOSE x \in q : \A y \in q : y <= x

(* strings created, as <<content, distance from the end>> *)
StrsOf(ops, got, q) ==
    LET o == ops[q] IN
    CASE o.op = "str" -> {<<o.x, got[q].off[1]>>}
      [] o.op = "many" -> {<<o.x[z], got[q].off[z]>> : z \in 1..Len(o.x)}
      [] o.op = "vstr" -> LET b == got[q].buf
                              v == Len(b) - got[q].off[1]
                          IN  {<<o.x[z], Len(b) - (v + 4 * z + U32(b, v + 4 * z))>> : z \in 1..Len(o.x)}
      [] OTHER -> {}
(* the vtable of a table at distance off, and its own distance *)
VtOf(buf, off) ==
    LET p == Len(buf) - off
        v == p - I32(buf, p)
    IN  <<SubSeq(buf, v + 1, v + U16(buf, v)), Len(buf) - v>>

Twice(s) == \E x \in s : \E y \in s : x[1] = y[1] /\ x[2] # y[2]

Judge(r, k) ==
    LET ops == r.ops
        o == ops[k]
        g == r.got[k]
        p == IF k = 1 THEN <<>> ELSE r.got[k - 1].buf
        st == Start(ops, k)
        seg == st..k
        str == UNION {StrsOf(ops, r.got, q) : q \in st..(k - 1)}
    IN
    IF g.panic # "" THEN <<"panic", g.panic>>
    ELSE IF o.op = "boom" THEN <<>>
    ELSE IF g.len # Len(g.buf) \/ g.empty # (g.buf = <<>>) THEN <<"len or is_empty">>
    ELSE IF o.op = "clear" THEN IF g.buf # <<>> THEN <<"not empty after clear">> ELSE <<>>
    ELSE IF ~Suffix(p, g.buf) THEN <<"earlier bytes changed", p, g.buf>>
    ELSE IF o.op = "fin" THEN
        LET hd == IF o.id = <<>> THEN 4 ELSE 8
            pad == Len(g.buf) - Len(p) - hd
            cx == [b |-> g.buf, L |-> L]
            w == WRef(cx, NT, 0)
        IN  IF pad < 0 \/ pad > 64 THEN <<"finish adds", pad>>
            ELSE IF U32(g.buf, 0) # Len(g.buf) - r.got[o.r + 1].off[1] THEN <<"root offset", U32(g.buf, 0)>>
            ELSE IF o.id # <<>> /\ SubSeq(g.buf, 5, 8) # o.id THEN <<"file identifier">>
            ELSE IF w.w # {} THEN <<"not well-formed", w.w>>
            ELSE IF Overlaps(w.x \cup {<<0, hd>>}) # {} THEN <<"overlap">>
            ELSE <<>>
    ELSE IF o.op = "many" THEN
        LET bad == {z \in 1..Len(o.x) : Stored([op |-> "str"], g.buf, g.off[z]) # <<"str", o.x[z]>>}
        IN  IF bad # {} THEN <<"wrong content", o.x[CHOOSE z \in bad : TRUE]>>
            ELSE IF On("s") /\ Twice(str \cup StrsOf(ops, r.got, k)) THEN <<"equal strings stored twice">> ELSE <<>>
    ELSE IF Stored(o, g.buf, g.off[1]) # Want(ops, k) THEN <<"wrong content", Stored(o, g.buf, g.off[1]), "wanted", Want(ops, k)>>
    ELSE IF On("s") /\ Twice(str \cup StrsOf(ops, r.got, k)) THEN <<"equal strings stored twice">>
    ELSE IF On("s") /\ o.op = "str" /\ g.buf # p /\ \E x \in str : x[1] = o.x THEN <<"equal string written again">>
    ELSE IF On("b") /\ o.op \in {"bytes", "ibytes"}
            /\ \E q \in st..(k - 1) : ops[q].op = o.op /\ ops[q].x = o.x /\ (g.off # r.got[q].off \/ g.buf # p)
         THEN <<"equal byte vectors stored twice">>
    ELSE IF On("v") /\ o.op = "tab" /\ Twice({VtOf(g.buf, r.got[q].off[1]) : q \in {q \in seg : ops[q].op = "tab"}})
         THEN <<"equal vtables stored twice">>
    ELSE <<>>

(* everything created since the last clear is still there *)
Still(r, k) ==
    LET st == Start(r.ops, k)
        objs == {q \in st..k : r.ops[q].op \in {"str", "bytes", "ibytes", "v64", "vstr", "vref", "un", "tab"}}
        bad == {q \in objs : Stored(r.ops[q], r.got[k].buf, r.got[q].off[1]) # Want(r.ops, q)}
    IN  IF bad # {} THEN <<"object changed later", CHOOSE q \in bad : TRUE>> ELSE <<>>

Why(r) ==
    LET n == Len(r.got)
        bad == {k \in 1..n : Judge(r, k) # <<>>}
        m == Len(r.fresh)
        diff == {q \in 1..m : r.skip + q <= n /\ (r.fresh[q].buf # r.got[r.skip + q].buf \/ r.fresh[q].off # r.got[r.skip + q].off
                                                  \/ r.fresh[q].panic # r.got[r.skip + q].panic)}
        k0 == CHOOSE k \in bad : \A x \in bad : k <= x
    IN  IF bad # {} THEN <<"operation", k0>> \o Judge(r, k0)
        ELSE IF n # Len(r.ops) THEN <<"stopped after", n>>
        ELSE IF diff # {} THEN <<"differs from a new builder at operation", r.skip + (CHOOSE q \in diff : \A x \in diff : q <= x)>>
        ELSE IF r.ops[n].op \notin {"boom", "clear"} THEN Still(r, n)
        ELSE <<>>

Accepted == Verdict(i, Why(Rec(i)))
=============================================================================
