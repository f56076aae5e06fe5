--------------------------- MODULE InspectorModel ---------------------------
(* The inspector on small buffers: every session of up to Depth keys, with a
   history of up to MaxStack views.  Explored exhaustively; the shortest
   session that reaches each state is printed, to be replayed.               *)
EXTENDS Inspector, Json, IOUtils, Integers
CONSTANTS Depth, MaxStack

Data == JsonDeserialize(IOEnv.DATA)
KeySet == {"tab", "g", "h", "i", "?", "c", "C-c", "q", "enter", "esc", "bs", "up", "down", "left", "right", "C-left", "C-right",
           "C-up", "C-down", "pgup", "pgdn", "home", "end", "0", "7", "B"}

VARIABLES d, s, path
vars == <<d, s, path>>

Init == /\ d \in 1..Len(Data)
        /\ s \in Start(Data[d])
        /\ path = <<>>
Press(k) == /\ s' \in Keys(Data[d], s, k)
            /\ path' = Append(path, k)
Draw(g) == /\ s.ls # 8 * g
           /\ s' = [s EXCEPT !.ls = 8 * g]
           /\ path' = Append(path, <<"draw0", "draw1", "draw2">>[g + 1])
Next == /\ ~s.quit
        /\ Len(path) < Depth
        /\ \/ \E k \in KeySet : Press(k)
           \/ \E g \in 0..2 : Draw(g)
        /\ UNCHANGED d
Bound == Len(s.stack) <= MaxStack
Seen == <<d, s>>

(* what a user relies on, for every reachable state *)
Consistent == StateOk(Data[d], s)

(* following an offset or jumping is undone by going back *)
Back == \A k \in {"enter"} : \A t \in Keys(Data[d], s, k) :
            (s.modal = None /\ ~s.quit /\ t.stack # s.stack /\ t # s) =>
                Keys(Data[d], t, "bs") = {[t EXCEPT !.view = s.view, !.stack = s.stack]}
(* a dialog changes nothing until it is confirmed, and closing it changes nothing *)
Dialogs == \A k \in {"g", "h", "?", "i"} : \A t \in Keys(Data[d], s, k) :
            (s.modal = None) => /\ t.view = s.view /\ t.stack = s.stack
                                /\ (t.modal # None => Keys(Data[d], t, "esc") = {s})
(* the confirmed entry of the history is what is shown next *)
History == \A q \in 0..Len(s.stack) :
            LET t == [s EXCEPT !.modal = <<"history", q>>] IN
            \A u \in Keys(Data[d], t, "enter") :
                /\ u.modal = None
                /\ u.view = IF q < Len(s.stack) THEN s.stack[q + 1] ELSE s.view
                /\ Len(u.stack) = q
(* jumping to any address shows that byte *)
Jump == \A a \in {"0", "1", "5", "10", "ff", "ffffffffffffffff"} :
            LET t == [s EXCEPT !.modal = <<"goto", a>>] IN
            \A u \in Keys(Data[d], t, "enter") :
                u.view.byte = Min2(HexVal(a, 0), Data[d].n - 1) /\ u.stack = Append(s.stack, s.view)
Export == PrintT("PROG " \o ToJson(<<d, path>>))
=============================================================================
