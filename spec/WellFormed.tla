----------------------------- MODULE WellFormed -----------------------------
(* What a well-formed, aligned FlatBuffer of a root table is.  WRef(cx, t, p)
   walks everything reachable from the offset field at p and collects the
   extents of all objects together with every fault met on the way; a buffer
   is well-formed when there is no fault and distinct extents do not overlap.
   Positions are 0-based.                                                    *)
EXTENDS Wire

(* result of a walk: x = set of extents <<first, after>>, w = faults *)
Nothing == [x |-> {}, w |-> {}]
Fault(why) == [x |-> {}, w |-> {why}]
Join(a, b) == [x |-> a.x \cup b.x, w |-> a.w \cup b.w]
RECURSIVE JoinAll(_)
JoinAll(s) == IF s = <<>> THEN Nothing ELSE Join(Head(s), JoinAll(Tail(s)))
Mis(p, al, what) == IF p % al = 0 THEN Nothing ELSE Fault(<<"misaligned", what, p, al>>)

RECURSIVE WTable(_, _, _)
RECURSIVE WVec(_, _, _)
RECURSIVE WRef(_, _, _)

WString(cx, p) ==
    IF ~Fits(cx.b, p, 4) THEN Fault(<<"string outside", p>>)
    ELSE LET n == U32(cx.b, p) IN
         IF n >= Len(cx.b) \/ ~Fits(cx.b, p, 4 + n + 1) THEN Fault(<<"string outside", p, n>>)
         ELSE JoinAll(<<[x |-> {<<p, p + 4 + n + 1>>}, w |-> {}],
                        Mis(p, 4, "string length"),
                        IF U8(cx.b, p + 4 + n) # 0 THEN Fault(<<"string without terminator", p>>) ELSE Nothing,
                        IF Utf8(cx.b, p + 4, p + 4 + n) >= 0 THEN Fault(<<"string not UTF-8", p>>) ELSE Nothing>>)

(* a vector of elements of type et at p; union vectors are walked pairwise *)
WVec(cx, et, p) ==
    LET st == TSz(cx.L, et) IN
    IF ~Fits(cx.b, p, 4) THEN Fault(<<"vector outside", p>>)
    ELSE LET n == U32(cx.b, p) IN
         IF n > Len(cx.b) \/ ~Fits(cx.b, p, 4 + n * st) THEN Fault(<<"vector outside", p, n>>)
         ELSE LET k == TK(cx.L, et)
                  el(q) == LET e == p + 4 + (q - 1) * st IN
                      CASE k = "enum" -> IF IsBad(EnumRes(cx.L.d[et[2]], Bytes(cx.b, e, st)))
                                         THEN Fault(<<"enum value", e>>) ELSE Nothing
                        [] k \in {"str", "table"} -> WRef(cx, et, e)
                        [] OTHER -> Nothing
              IN  JoinAll(<<[x |-> {<<p, p + 4 + n * st>>}, w |-> {}],
                            Mis(p, 4, "vector length"),
                            Mis(p + 4, TAl(cx.L, et), "vector elements")>>
                          \o [q \in 1..n |-> el(q)])

(* offset field at p to an object of type t *)
WRef(cx, t, p) ==
    LET o == U32(cx.b, p)
        k == TK(cx.L, t)
    IN  IF o = 0 \/ p + o > Len(cx.b) THEN Fault(<<"offset", p, o>>)
        ELSE CASE k = "str" -> WString(cx, p + o)
               [] k = "table" -> WTable(cx, t[2], p + o)
               [] k = "vec" -> WVec(cx, t[2], p + o)
               [] k = "struct" ->   \* only as a union value
                    IF ~Fits(cx.b, p + o, TSz(cx.L, t)) THEN Fault(<<"struct outside", p + o>>)
                    ELSE Join([x |-> {<<p + o, p + o + TSz(cx.L, t)>>}, w |-> {}], Mis(p + o, TAl(cx.L, t), "struct"))

WUnion(cx, u, tag, p) ==
    IF tag = 0 \/ tag > Len(cx.L.d[u].v) THEN Fault(<<"union tag", p, tag>>)
    ELSE WRef(cx, cx.L.d[u].v[tag], p)

TagVec == <<"u8">>
OffVec == <<"str">>   \* anything stored as an offset

WTable(cx, j, o) ==
    LET b == cx.b
        T == cx.L.d[j]
        vt == o - I32(b, o)
    IN
    IF ~Fits(b, o, 4) THEN Fault(<<"table outside", o>>)
    ELSE IF vt < 0 \/ ~Fits(b, vt, 4) THEN Fault(<<"vtable outside", o, vt>>)
    ELSE LET vs == U16(b, vt)
             os == U16(b, vt + 2)
         IN
    IF vs < 4 \/ vs % 2 = 1 \/ ~Fits(b, vt, vs) THEN Fault(<<"vtable size", vt, vs>>)
    ELSE IF os < 4 \/ ~Fits(b, o, os) THEN Fault(<<"object size", o, os>>)
    ELSE LET n == (vs - 4) \div 2
             so(s) == IF s < n THEN U16(b, vt + 4 + 2 * s) ELSE 0
             \* what may be stored in a slot: <<size, alignment, name>>
             parts(f) == IF f.two
                         THEN {[s |-> f.slot, sz |-> IF f.kind = "union" THEN 1 ELSE 4, al |-> IF f.kind = "union" THEN 1 ELSE f.al],
                               [s |-> f.slot + 1, sz |-> 4, al |-> f.al]}
                         ELSE {[s |-> f.slot, sz |-> f.sz, al |-> f.al]}
             fs == Shown(T)
             known == UNION {{p.s : p \in parts(fs[q])} : q \in 1..Len(fs)}
             here == UNION {{p \in parts(fs[q]) : so(p.s) # 0} : q \in 1..Len(fs)}
             okp(p) == so(p.s) >= 4 /\ so(p.s) + p.sz <= os
             fault == {<<"unknown slot used", o, s>> : s \in {s \in 0..(n - 1) : so(s) # 0 /\ s \notin known}}
                 \cup {<<"field outside its table", o, p>> : p \in {p \in here : ~okp(p)}}
                 \cup {<<"misaligned field", o, p>> : p \in {p \in here : (o + so(p.s)) % p.al # 0}}
                 \cup {<<"fields overlap", o, pq>> : pq \in {pq \in here \X here :
                            pq[1].s < pq[2].s /\ so(pq[1].s) < so(pq[2].s) + pq[2].sz /\ so(pq[2].s) < so(pq[1].s) + pq[1].sz}}
                 \cup {<<"required field missing", o, fs[q].n>> : q \in {q \in 1..Len(fs) : fs[q].p = "req" /\ so(fs[q].slot) = 0}}
                 \cup {<<"half a union", o, fs[q].n>> : q \in {q \in 1..Len(fs) : fs[q].two /\ (so(fs[q].slot) = 0) # (so(fs[q].slot + 1) = 0)}}
                 \cup {<<"vtable outside", vt>> : z \in {z \in {0} : vt % 2 # 0}}
             self == [x |-> {<<o, o + os>>, <<vt, vt + vs>>}, w |-> fault]
             fld(f) ==
                LET p == o + so(f.slot)
                    q == o + so(f.slot + 1)
                IN
                IF so(f.slot) = 0 THEN Nothing
                ELSE IF f.kind = "union" THEN
                    IF U8(b, p) = 0 THEN Fault(<<"union tag zero", p>>) ELSE WUnion(cx, f.t[2], U8(b, p), q)
                ELSE IF f.two THEN
                    LET to == U32(b, p)
                        uo == U32(b, q)
                    IN  IF to = 0 \/ uo = 0 \/ p + to > Len(b) \/ q + uo > Len(b) THEN Fault(<<"offset", p, q>>)
                        ELSE LET t == WVec(cx, TagVec, p + to)
                                 v == IF ~Fits(b, q + uo, 4) THEN Fault(<<"vector outside", q>>)
                                      ELSE LET m == U32(b, q + uo) IN
                                           IF m > Len(b) \/ ~Fits(b, q + uo, 4 + 4 * m) THEN Fault(<<"vector outside", q, m>>)
                                           ELSE Join([x |-> {<<q + uo, q + uo + 4 + 4 * m>>}, w |-> {}], Mis(q + uo, 4, "vector"))
                             IN  IF t.w \cup v.w # {} THEN Join(t, v)
                                 ELSE IF U32(b, p + to) # U32(b, q + uo) THEN Fault(<<"union vector lengths", p>>)
                                 ELSE JoinAll(<<t, v>> \o [e \in 1..U32(b, p + to) |->
                                        WUnion(cx, f.t[2][2], U8(b, p + to + 4 + e - 1), q + uo + 4 + 4 * (e - 1))])
                ELSE CASE f.kind = "enum" -> IF IsBad(EnumRes(cx.L.d[f.t[2]], Bytes(b, p, f.sz)))
                                             THEN Fault(<<"enum value", p>>) ELSE Nothing
                       [] f.kind \in {"str", "table", "vec"} -> WRef(cx, f.t, p)
                       [] f.kind = "scalar" /\ f.t[1] = "bool" -> IF U8(b, p) > 1 THEN Fault(<<"bool", p>>) ELSE Nothing
                       [] OTHER -> Nothing
         IN  IF \E w \in fault : TRUE THEN self
             ELSE Join(self, JoinAll([q \in 1..Len(fs) |-> fld(fs[q])]))

Overlaps(x) == {pq \in x \X x : pq[1][1] < pq[2][2] /\ pq[2][1] < pq[1][2] /\ pq[1] # pq[2]}

=============================================================================
