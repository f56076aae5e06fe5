----------------------------- MODULE Inspector -----------------------------
(* The inspector: what is selected, what was selected before, the dialogs.
   d = [objs, ints, root, n]: the lines of every object, the interpretations
   <<object, lines>> of every byte and the object shown first (all judged by
   InspectJudge), n bytes.
   view  [byte, info]: info = <<>> (no object has the byte) or
         <<object, line (from 0), interpretation (from 1)>>
   state [view, stack, win "O"|"H", modal, quit, ls: bytes per hex row]
   modal <<"none">>, <<"goto", digits>>, <<"history", n>>, <<"help">>,
         <<"tree", selected (from 1), views>>
   Keys(d, s, k) is the set of states a key press may lead to.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

None == <<"none">>
Min2(a, b) == IF a < b THEN a ELSE b
Sat(x) == IF x < 0 THEN 0 ELSE x

Lns(d, o) == d.objs[o].lines
IntsAt(d, p) == d.ints[p + 1]
HasInfo(v) == v.info # <<>>
CurLine(d, v) == Lns(d, v.info[1])[v.info[2] + 1]
Has(s, x) == \E q \in 1..Len(s) : s[q] = x
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

(* the selected line and interpretation belong to the object shown and cover
   the selected byte *)
ViewOk(d, v) ==
    /\ v.byte \in 0..(d.n - 1)
    /\ (v.info = <<>>) = (IntsAt(d, v.byte) = <<>>)
    /\ HasInfo(v) =>
        /\ v.info[1] \in 1..Len(d.objs)
        /\ v.info[2] \in 0..(Len(Lns(d, v.info[1])) - 1)
        /\ v.info[3] \in 1..Len(IntsAt(d, v.byte))
        /\ LET l == CurLine(d, v)
               w == IntsAt(d, v.byte)[v.info[3]]
           IN  /\ w[1] = v.info[1]
               /\ Has(w[2], l.ls)
               /\ l.s <= v.byte /\ v.byte < l.e
ModalOk(d, s) ==
    CASE s.modal[1] = "history" -> s.modal[2] \in 0..Len(s.stack)
      [] s.modal[1] = "tree" -> /\ s.modal[2] \in 1..Len(s.modal[3])
                                /\ \A q \in 1..Len(s.modal[3]) : ViewOk(d, s.modal[3][q])
      [] OTHER -> TRUE
StateOk(d, s) ==
    /\ ViewOk(d, s.view)
    /\ \A q \in 1..Len(s.stack) : ViewOk(d, s.stack[q])
    /\ ModalOk(d, s)

-----------------------------------------------------------------------------
(* moving; sets of views, since a byte or line may admit several
   interpretations *)
AtObject(d, o) ==
    LET p == d.objs[o].at IN
    {[byte |-> p, info |-> <<o, 0, q>>] : q \in {q \in 1..Len(IntsAt(d, p)) : IntsAt(d, p)[q][1] = o}}

AtLine(d, v, line) ==
    IF ~HasInfo(v) THEN {v}
    ELSE IF line = v.info[2] \/ line < 0 \/ line >= Len(Lns(d, v.info[1])) THEN {v}
    ELSE LET l == Lns(d, v.info[1])[line + 1]
             w == IntsAt(d, l.s)
         IN  {[byte |-> l.s, info |-> <<v.info[1], line, q>>] :
                q \in {q \in 1..Len(w) : w[q][1] = v.info[1] /\ Has(w[q][2], l.ls)}}

AtByte(d, v, p0) ==
    LET p == Min2(p0, d.n - 1)
        w == IntsAt(d, p)
        same == {q \in 1..Len(w) : HasInfo(v) /\ w[q][1] = v.info[1]}
    IN  IF p = v.byte THEN {v}
        ELSE IF w = <<>> THEN {[byte |-> p, info |-> <<>>]}
        ELSE {[byte |-> p, info |-> <<w[q][1], Last(w[q][2]), q>>] : q \in IF same # {} THEN same ELSE 1..Len(w)}

AtInt(d, v, q) ==   \* the q-th interpretation of the selected byte
    LET w == IntsAt(d, v.byte) IN
    IF q = v.info[3] THEN v ELSE [v EXCEPT !.info = <<w[q][1], Last(w[q][2]), q>>]

-----------------------------------------------------------------------------
HexDigits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
Upper == <<"", "", "", "", "", "", "", "", "", "", "A", "B", "C", "D", "E", "F">>
DigitOf(k) == {q \in 1..16 : HexDigits[q] = k \/ (Upper[q] # "" /\ Upper[q] = k)}
Big == 1000000
RECURSIVE HexVal(_, _)
HexVal(s, acc) ==     \* saturating
    IF s = "" THEN acc
    ELSE HexVal(SubSeq(s, 2, Len(s)), Min2(Big, acc * 16 + (CHOOSE q \in DigitOf(SubSeq(s, 1, 1)) : TRUE) - 1))

Toggle(s, m) == [s EXCEPT !.modal = IF s.modal[1] = m[1] THEN None ELSE m]
Push(s, views) == {[s EXCEPT !.stack = Append(s.stack, s.view), !.view = v] : v \in views}
Pop(s) == [s EXCEPT !.view = Last(s.stack), !.stack = Front(s.stack)]

(* keys that work everywhere: <<states, done>>; done means that no window
   sees the key any more *)
Global(d, s, k) ==
    LET v == s.view IN
    CASE k = "tab" -> IF s.win = "O" THEN <<{[s EXCEPT !.win = "H"]}, TRUE>>
                      ELSE IF HasInfo(v) THEN <<{[s EXCEPT !.win = "O"]}, TRUE>> ELSE <<{s}, FALSE>>
      [] k = "g" -> <<{Toggle(s, <<"goto", "">>)}, TRUE>>
      [] k = "x" -> <<{s}, TRUE>>
      [] k = "h" -> <<{Toggle(s, <<"history", Len(s.stack)>>)}, TRUE>>
      [] k = "i" -> IF HasInfo(v)
                    THEN <<{Toggle(s, <<"tree", v.info[3], [q \in 1..Len(IntsAt(d, v.byte)) |-> AtInt(d, v, q)]>>)}, TRUE>>
                    ELSE <<{s}, FALSE>>
      [] k = "?" -> <<{Toggle(s, <<"help">>)}, TRUE>>
      [] k \in {"q", "C-c"} -> <<{[s EXCEPT !.quit = TRUE]}, FALSE>>
      [] k = "c" -> IF HasInfo(v)
                    THEN <<{[s EXCEPT !.view = AtInt(d, v, 1 + (v.info[3] % Len(IntsAt(d, v.byte))))]}, TRUE>>
                    ELSE <<{s}, FALSE>>
      [] k = "enter" /\ s.modal = None ->
            IF HasInfo(v) /\ CurLine(d, v).to # 0
            THEN <<Push(s, AtObject(d, CurLine(d, v).to)), TRUE>> ELSE <<{s}, TRUE>>
      [] k = "esc" /\ s.modal = None ->
            IF s.stack # <<>> THEN <<{Pop(s)}, TRUE>> ELSE <<{[s EXCEPT !.quit = TRUE]}, FALSE>>
      [] k = "bs" /\ s.modal = None ->
            IF s.stack # <<>> THEN <<{Pop(s)}, TRUE>> ELSE <<{s}, FALSE>>
      [] OTHER -> <<{s}, FALSE>>

(* the open dialog, which does not look at the control key *)
Plain(k) == IF Len(k) > 2 /\ SubSeq(k, 1, 2) = "C-" THEN SubSeq(k, 3, Len(k)) ELSE k
Dialog(d, s, k0) ==
    LET m == s.modal
        k == Plain(k0)
        set(x) == {[s EXCEPT !.modal = x]}
    IN
    IF k = "esc" THEN set(None)
    ELSE CASE m[1] = "goto" ->
                IF DigitOf(k) # {} /\ Len(m[2]) < 16 THEN set(<<"goto", m[2] \o HexDigits[CHOOSE q \in DigitOf(k) : TRUE]>>)
                ELSE IF k = "bs" THEN set(<<"goto", SubSeq(m[2], 1, Sat(Len(m[2]) - 1))>>)
                ELSE IF k = "enter" THEN
                    IF m[2] = "" THEN {s} \cup set(None)    \* nowhere to go
                    ELSE {[x EXCEPT !.win = "H", !.modal = None] : x \in Push(s, AtByte(d, s.view, HexVal(m[2], 0)))}
                ELSE {s}
           [] m[1] = "history" ->
                IF k = "up" THEN set(<<"history", Sat(m[2] - 1)>>)
                ELSE IF k = "down" THEN set(<<"history", Min2(m[2] + 1, Len(s.stack))>>)
                ELSE IF k = "enter" THEN
                    IF m[2] < Len(s.stack)
                    THEN {[s EXCEPT !.view = s.stack[m[2] + 1], !.stack = SubSeq(s.stack, 1, m[2]), !.modal = None]}
                    ELSE set(None)
                ELSE {s}
           [] m[1] = "tree" ->
                IF k = "up" /\ m[2] > 1 THEN set(<<"tree", m[2] - 1, m[3]>>)
                ELSE IF k = "down" /\ m[2] < Len(m[3]) THEN set(<<"tree", m[2] + 1, m[3]>>)
                ELSE IF k = "enter" THEN {[x EXCEPT !.modal = None] : x \in Push(s, {m[3][m[2]]})}
                ELSE {s}
           [] OTHER -> {s}

ObjectWindow(d, s, k) ==
    LET v == s.view
        l == CurLine(d, v)
        at == v.info[2]
        end == Len(Lns(d, v.info[1])) - 1
        line == CASE k = "left" -> l.par
                  [] k = "right" -> IF l.ls # l.le THEN l.ls + 1 ELSE at
                  [] k = "C-left" -> l.par
                  [] k = "C-right" -> IF l.ls # l.le THEN l.ls + 1 ELSE at
                  [] k = "up" -> at - 1
                  [] k = "down" -> at + 1
                  [] k = "C-up" -> IF l.ls # at THEN l.ls ELSE at - 1
                  [] k = "C-down" -> IF l.le # at THEN l.le ELSE at + 1
                  [] k = "pgup" -> Sat(at - 5)
                  [] k = "pgdn" -> Min2(end, at + 5)
                  [] k = "home" -> 0
                  [] k = "end" -> end
                  [] OTHER -> at
    IN  IF ~HasInfo(v) THEN {s} ELSE {[s EXCEPT !.view = x] : x \in AtLine(d, v, line)}

HexWindow(d, s, k) ==
    LET v == s.view
        p == v.byte
        to == CASE k = "up" -> IF p >= s.ls THEN p - s.ls ELSE p
                [] k = "down" -> IF p + s.ls < d.n THEN p + s.ls ELSE p
                [] k = "pgup" -> Sat(p - 8 * s.ls)
                [] k = "pgdn" -> p + 8 * s.ls
                [] k = "left" -> Sat(p - 1)
                [] k = "right" -> p + 1
                [] k = "C-left" -> Sat((IF HasInfo(v) THEN CurLine(d, v).s ELSE p) - 1)
                [] k = "C-right" -> IF HasInfo(v) THEN CurLine(d, v).e ELSE p + 1
                [] k = "C-up" -> IF p >= s.ls THEN p - s.ls ELSE p
                [] k = "C-down" -> IF p + s.ls < d.n THEN p + s.ls ELSE p
                [] k = "home" -> 0
                [] k = "end" -> d.n - 1
                [] OTHER -> p
    IN  {[s EXCEPT !.view = x] : x \in AtByte(d, v, to)}

Keys(d, s, k) ==
    LET g == Global(d, s, k)
        windows(x) == IF g[2] THEN {x} ELSE IF x.win = "O" THEN ObjectWindow(d, x, k) ELSE HexWindow(d, x, k)
    IN  UNION {IF x.modal # None THEN Dialog(d, x, k) ELSE windows(x) : x \in g[1]}

Start(d) == {[view |-> v, stack |-> <<>>, win |-> "O", modal |-> None, quit |-> FALSE, ls |-> 0] : v \in AtObject(d, d.root)}

-----------------------------------------------------------------------------
(* the screen *)
Groups(w, dg) == (Sat(w - dg - 2) + 1) \div 25       \* groups of eight bytes that fit beside the address
RECURSIVE Hex(_, _)
Hex(x, n) == IF n = 0 THEN "" ELSE Hex(x \div 16, n - 1) \o HexDigits[1 + (x % 16)]
RowText(b, from, ls, dg) ==
    LET n == Min2(ls, Len(b) - from)
        t[q \in 0..n] == IF q = 0 THEN "" ELSE
            t[q - 1] \o (IF q = 1 THEN "" ELSE IF (q - 1) % 8 = 0 THEN "  " ELSE " ") \o Hex(b[from + q], 2)
    IN  Hex(from, dg) \o "  " \o t[n]

RECURSIVE Blanks(_)
Blanks(n) == IF n <= 0 THEN "" ELSE " " \o Blanks(n - 1)
RECURSIVE Trim(_)
Trim(t) == IF t # "" /\ SubSeq(t, Len(t), Len(t)) = " " THEN Trim(SubSeq(t, 1, Len(t) - 1)) ELSE t
Cut(t, w) == SubSeq(t, 1, Min2(w, Len(t)))
LineRow(l, w) ==
    LET t == Blanks(l.ind) \o l.tx
        m == IF l.off THEN "*" \o SubSeq(t, 2, Len(t)) ELSE t
    IN  Trim(Cut(m, w))
=============================================================================
