---------------------------- MODULE BuilderModel ----------------------------
(* The builder as planus implements it, at the level of sizes: a buffer that
   grows towards its front, the promise (delayed, mask) that the part still to
   be written will have delayed + K * (mask + 1) bytes for some K, the three
   caches, clear and finish.  TLC proves that the promise keeps every object
   aligned, that finishing discharges it, and that clearing forgets all.
   The history h is the behaviour replayed on the real builder.             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils

CONSTANTS Depth, Caches     \* Caches: subset of {"v", "s", "b"} switched on

VARIABLES len, delayed, mask, objs, strs, byts, vts, kinds, fin, h,
          wk        \* 0, or the number of the script this walk follows

vars == <<len, delayed, mask, objs, strs, byts, vts, kinds, fin, h, wk>>

(* Long walks cannot be enumerated: a script (one number per step) resolves
   their choices; with wk = 0 every choice is open.                          *)
Scripts == IF IOEnv.SCRIPTS = "-" THEN <<>> ELSE JsonDeserialize(IOEnv.SCRIPTS)
Num(k) == Scripts[wk][Len(h) + 1] \div (22 * 7 ^ k)
Sel(s, k) == IF wk = 0 \/ s = {} THEN s ELSE {SetToSeq(s)[1 + (Num(k) % Cardinality(s))]}

Strings == {<<>>, <<97>>, <<97, 98, 99>>, <<1, 2, 3>>}
ByteVecs == {<<>>, <<7>>, <<1, 2, 3>>, <<97, 98, 99>>}

Larger(a, b) == IF a >= b THEN a ELSE b
\* padding that Write(size, m) inserts before (that is: behind) the object
Pad(dl, mk, size, m) == ((dl - size) % (mk + 1)) % (m + 1)

(* one aligned write; st = [len, delayed, mask, objs] *)
Write(st, size, m) ==
    LET d == (st.delayed - size) % (st.mask + 1)
        pad == d % (m + 1)
    IN  [len |-> st.len + pad + size,
         delayed |-> d - pad,
         mask |-> Larger(st.mask, m),
         objs |-> st.objs \cup {<<st.len + pad + size, m + 1>>}]
St == [len |-> len, delayed |-> delayed, mask |-> mask, objs |-> objs]
Become(st) == len' = st.len /\ delayed' = st.delayed /\ mask' = st.mask /\ objs' = st.objs

WStr(st, x) == Write(st, 5 + Len(x), 3)
WVec(st, n, stride, m) ==     \* elements, then the length in front of them
    LET e == Write(st, n * stride, Larger(m, 3)) IN Write(e, 4, 0)

Init ==
    /\ len = 0 /\ delayed = 0 /\ mask = 0 /\ objs = {}
    /\ strs = {} /\ byts = {} /\ vts = {}
    /\ kinds = <<>> /\ fin = FALSE /\ h = <<>>
    /\ wk \in IF Scripts = <<>> THEN {0} ELSE 1..Len(Scripts)

Log(op, k) == h' = Append(h, op) /\ kinds' = Append(kinds, k) /\ fin' = (op.op = "fin")

\* indices (0-based) of the objects of a kind made since the last clear
Have(k) == {x \in 1..Len(kinds) : kinds[x] = k}
Pick(k) == {-1} \cup {x - 1 : x \in {y \in Have(k) : \A z \in Have(k) : z <= y}}

Live == kinds = <<>> \/ kinds[Len(kinds)] # "boom"

Str == \E x \in Sel(Strings, 1) : \E how \in {Len(h) % 4} :
    /\ Become(IF "s" \in Caches /\ x \in strs THEN St ELSE WStr(St, x))
    /\ strs' = strs \cup {x}
    /\ Log([op |-> "str", x |-> x, how |-> how], "str")
    /\ UNCHANGED <<byts, vts>>
Byts == \E x \in Sel(ByteVecs, 1) : \E k \in Sel({"bytes", "ibytes"}, 2) :
    /\ Become(IF "b" \in Caches /\ x \in byts THEN St ELSE WVec(St, Len(x), 1, 0))
    /\ byts' = byts \cup {x}
    /\ Log([op |-> k, x |-> x, how |-> Len(h) % 3], k)
    /\ UNCHANGED <<strs, vts>>
V64 == \E n \in Sel(0..2, 1) :
    /\ Become(WVec(St, n, 8, 7))
    /\ Log([op |-> "v64", x |-> [q \in 1..n |-> <<q, 0, 0, 0, 0, 0, 1, 128>>], how |-> Len(h) % 3], "v64")
    /\ UNCHANGED <<strs, byts, vts>>
VStr == \E xs \in Sel({<<<<97>>, <<97>>>>, <<<<98, 98>>, <<97, 98, 99>>>>}, 1) :
    LET one(st, seen, x) == IF "s" \in Caches /\ x \in seen THEN st ELSE WStr(st, x)
        s1 == one(St, strs, xs[1])
        s2 == one(s1, strs \cup {xs[1]}, xs[2])
    IN  /\ Become(WVec(s2, 2, 4, 3))
        /\ strs' = strs \cup {xs[1], xs[2]}
        /\ Log([op |-> "vstr", x |-> xs, how |-> Len(h) % 3], "vs")
        /\ UNCHANGED <<byts, vts>>
VRef == \E k \in Sel(Have("str"), 1) :
    /\ Become(WVec(St, 2, 4, 3))
    /\ Log([op |-> "vref", x |-> <<k - 1, k - 1>>], "vs")
    /\ UNCHANGED <<strs, byts, vts>>
Uni == \E t \in Sel({2} \cup (IF Have("tab") = {} THEN {} ELSE {1}) \cup (IF Have("str") = {} THEN {} ELSE {3}), 1) :
    /\ UNCHANGED <<strs, byts, vts>>
    /\ CASE t = 2 -> /\ Become(Write(St, 16, 15))
                     /\ Log([op |-> "un", tag |-> 2, x |-> <<"st", <<<<"sc", <<9, 0, 0, 0, 0, 0, 0, 255>>>>, <<"sc", <<8>>>>>>>>], "un")
         [] t = 1 -> Become(St) /\ \E k \in Pick("tab") \ {-1} : Log([op |-> "un", tag |-> 1, x |-> k], "un")
         [] t = 3 -> Become(St) /\ \E k \in Pick("str") \ {-1} : Log([op |-> "un", tag |-> 3, x |-> k], "un")

(* A table: vtable (shared when cached), then the object.  Slots of N:
   a w s b n u(tag) u vs i v e = 0..10.                                      *)
Tab == \E a \in Sel({0, 3}, 1) : \E w \in Sel({0, 5}, 2) : \E all \in Sel(BOOLEAN, 3) : \E e \in Sel({5, 6}, 4) :
    LET p(k) == IF ~all THEN -1
                ELSE IF wk = 0 THEN CHOOSE x \in Pick(k) : \A y \in Pick(k) : y <= x
                ELSE CHOOSE x \in Sel(Pick(k) \cup {q - 1 : q \in Have(k)}, 5) : TRUE
        rs == <<p("str"), p("bytes"), p("tab"), p("un"), p("vs"), p("ibytes"), p("v64")>>
        slots == (IF a = 0 THEN {} ELSE {<<0, 1>>}) \cup (IF w = 0 THEN {} ELSE {<<1, 8>>})
            \cup (IF e = 5 THEN {} ELSE {<<10, 2>>})
            \cup {<<<<2, 3, 4, 6, 7, 8, 9>>[q], 4>> : q \in {q \in 1..7 : rs[q] >= 0}}
            \cup (IF rs[4] >= 0 THEN {<<5, 1>>} ELSE {})
        sum(s) == Cardinality({x \in s : x[2] = 1}) + 2 * Cardinality({x \in s : x[2] = 2})
                  + 4 * Cardinality({x \in s : x[2] = 4}) + 8 * Cardinality({x \in s : x[2] = 8})
        n == IF slots = {} THEN 0 ELSE 1 + (CHOOSE m \in {x[1] : x \in slots} : \A x \in slots : x[1] <= m)
        st == IF "v" \in Caches /\ slots \in vts THEN St ELSE Write(St, 4 + 2 * n, 1)
        ob == Write(st, sum(slots), IF w = 0 THEN 3 ELSE 7)
    IN  /\ Become(Write(ob, 4, 0))
        /\ vts' = vts \cup {slots}
        /\ Log([op |-> "tab", a |-> a, w |-> <<w, 0, 0, 0, 0, 0, 0, 0>>, s |-> rs[1], b |-> rs[2], n |-> rs[3],
                u |-> rs[4], vs |-> rs[5], i |-> rs[6], v |-> rs[7], e |-> e], "tab")
        /\ UNCHANGED <<strs, byts>>

Finish == \E k \in Pick("tab") \ {-1} : \E id \in Sel({<<>>, <<80, 76, 78, 83>>}, 1) :
    /\ Become(Write(St, IF id = <<>> THEN 4 ELSE 8, Larger(3, mask)))
    /\ Log([op |-> "fin", r |-> k, id |-> id], "fin")
    /\ UNCHANGED <<strs, byts, vts>>

Clear ==
    /\ len' = 0 /\ delayed' = 0 /\ mask' = 0 /\ objs' = {}
    /\ strs' = {} /\ byts' = {} /\ vts' = {}
    /\ h' = Append(h, [op |-> "clear"])
    /\ kinds' = [q \in 1..(Len(kinds) + 1) |-> "gone"]
    /\ fin' = FALSE

(* a write that panics half way; only clearing makes sense afterwards *)
Boom == \E how \in Sel(1..2, 1) :
    /\ Log([op |-> "boom", how |-> how], "boom")
    /\ Become(St) /\ UNCHANGED <<strs, byts, vts>>

Step == IF Live THEN Str \/ Byts \/ V64 \/ VStr \/ VRef \/ Uni \/ Tab \/ Finish \/ Clear \/ Boom ELSE Clear
Scripted ==
    LET k == 1 + (Scripts[wk][Len(h) + 1] % 22) IN
    IF ~Live THEN Clear
    ELSE CASE k \in 1..4 -> Str
           [] k \in 5..7 -> Byts
           [] k \in 8..9 -> V64
           [] k = 10 -> VStr
           [] k = 11 -> IF Have("str") = {} THEN Str ELSE VRef
           [] k \in 12..14 -> Uni
           [] k \in 15..18 -> Tab
           [] k \in 19..20 -> IF Have("tab") = {} THEN Tab ELSE Finish
           [] k = 21 -> Clear
           [] k = 22 -> Boom
Next == /\ Len(h) < Depth
        /\ IF wk = 0 THEN Step ELSE Scripted
        /\ UNCHANGED wk

(* for exporting behaviours: print each history of full length once *)
End ==
    /\ Len(h) = Depth
    /\ PrintT("BEHAVIOUR " \o ToJson(h))
    /\ h' = Append(h, [op |-> "end"])
    /\ UNCHANGED <<len, delayed, mask, objs, strs, byts, vts, kinds, fin, wk>>
GenNext == Next \/ End

-----------------------------------------------------------------------------
(* every object will be aligned however much more is written, as long as the
   promise is kept ...                                                       *)
Promise == \A o \in objs : (o[2] > 1) => (len + delayed - o[1]) % o[2] = 0
           /\ mask + 1 >= o[2] /\ delayed <= mask
(* ... and finishing keeps it *)
Finished == fin => delayed = 0 /\ \A o \in objs : (len - o[1]) % o[2] = 0
Forgotten == (h # <<>> /\ h[Len(h)].op = "clear") => len = 0 /\ objs = {} /\ strs = {} /\ byts = {} /\ vts = {}

\* without the history: the states of the builder proper
Core == <<len, delayed, mask, objs, strs, byts, vts, {kinds[q] : q \in 1..Len(kinds)}, Live, fin>>
=============================================================================
