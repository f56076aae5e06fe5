------------------------------- MODULE Cursor -------------------------------
(* In-place initialisation of an array through cursors.  A cursor is the right and
   the duty to initialise an interval of the array: it can be split, can write
   some of its elements, and has to be empty when it is dropped.
   arr[x]    what element x holds: 0, not initialised, or the number of a value
   cur       the cursors at hand, in the order they came into being, as
             << first element, number of elements >>
   bad       how often a cursor was dropped with elements left to write (each time
             the caller is told by a panic)
   prog      what has been done                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, Depth
VARIABLES n, arr, cur, bad, next, prog
vars == <<n, arr, cur, bad, next, prog>>

Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Put(s, at, v) == [x \in 1..Len(s) |-> IF x >= at /\ x < at + Len(v) THEN v[x - at + 1] ELSE s[x]]

(* The state after one operation o = << name, cursor, number, values >>.
   s is [n, arr, cur, bad]; values are numbers above 0.                       *)
Step(s, o) ==
    LET c == s.cur[o[2]]
        rest == Without(s.cur, o[2])
    IN CASE o[1] = "split" -> [s EXCEPT !.cur = rest \o <<<<c[1], o[3]>>, <<c[1] + o[3], c[2] - o[3]>>>>]
         [] o[1] = "write" -> [s EXCEPT !.cur = rest \o <<<<c[1] + o[3], c[2] - o[3]>>>>, !.arr = Put(s.arr, c[1], o[4])]
         [] o[1] = "finish" -> [s EXCEPT !.cur = rest, !.arr = Put(s.arr, c[1], o[4])]
         [] o[1] = "assert" -> [s EXCEPT !.cur = rest \o <<c>>]
         [] o[1] = "drop" -> [s EXCEPT !.cur = rest, !.bad = s.bad + (IF c[2] > 0 THEN 1 ELSE 0)]
Start(m) == [n |-> m, arr |-> [x \in 1..m |-> 0], cur |-> <<<<1, m>>>>, bad |-> 0]
RECURSIVE After(_, _, _)
After(s, p, k) == IF k > Len(p) THEN s ELSE After(Step(s, p[k]), p, k + 1)
(* whatever cursors are left in the end are dropped *)
RECURSIVE Close(_)
Close(s) == IF s.cur = <<>> THEN s ELSE Close(Step(s, <<"drop", 1, 0, <<>>>>))
HandedOut(s) == s.cur = <<>> /\ s.bad = 0

-----------------------------------------------------------------------------
State == [n |-> n, arr |-> arr, cur |-> cur, bad |-> bad]
Do(o) ==
    LET t == Step(State, o) IN
    /\ Len(prog) < Depth
    /\ n' = n /\ arr' = t.arr /\ cur' = t.cur /\ bad' = t.bad
    /\ next' = next + Len(o[4])
    /\ prog' = Append(prog, o)
Fresh(k) == [x \in 1..k |-> next + x - 1]

Init == /\ n \in 0..MaxN
        /\ arr = Start(n).arr /\ cur = Start(n).cur /\ bad = 0 /\ next = 1 /\ prog = <<>>
Split == \E c \in 1..Len(cur) : \E k \in 0..cur[c][2] : Do(<<"split", c, k, <<>>>>)
Write == \E c \in 1..Len(cur) : \E k \in 0..cur[c][2] : Do(<<"write", c, k, Fresh(k)>>)
Finish == \E c \in 1..Len(cur) : Do(<<"finish", c, cur[c][2], Fresh(cur[c][2])>>)
AssertSize == \E c \in 1..Len(cur) : Do(<<"assert", c, cur[c][2], <<>>>>)
Drop == \E c \in 1..Len(cur) : Do(<<"drop", c, 0, <<>>>>)
Next == Split \/ Write \/ Finish \/ AssertSize \/ Drop

Owner(x) == {c \in 1..Len(cur) : cur[c][1] <= x /\ x < cur[c][1] + cur[c][2]}
TypeOK == /\ \A c \in 1..Len(cur) : cur[c][1] >= 1 /\ cur[c][2] >= 0 /\ cur[c][1] + cur[c][2] <= n + 1
          /\ \A x \in 1..n : arr[x] \in 0..(next - 1)
(* never two cursors for one element, never one for an element that is written *)
Disjoint == \A x \in 1..n : Cardinality(Owner(x)) <= 1 /\ (arr[x] # 0 => Owner(x) = {})
(* every value is somewhere, once *)
Kept == \A v \in 1..(next - 1) : Cardinality({x \in 1..n : arr[x] = v}) = 1
(* nothing is handed out unless it is complete *)
AllOrNothing == HandedOut(State) => \A x \in 1..n : arr[x] # 0
(* what was written stays as it is *)
Stable == [][\A x \in 1..n : arr[x] # 0 => arr'[x] = arr[x]]_vars
Spec == Init /\ [][Next]_vars

(* behaviours for the replay: every one of length Depth, or that can go no further *)
Export == (Len(prog) = Depth \/ cur = <<>>) => PrintT("PROG " \o ToJson([n |-> n, prog |-> prog]))
=============================================================================
