---------------------------- MODULE ViewerModel -----------------------------
(* Every kind of request, and every short session of an open viewer: kinds of
   keys and changes of the size of the terminal.                            *)
EXTENDS Viewer, Json
CONSTANT Depth
VARIABLES c, v, path
vars == <<c, v, path>>

Requests == [data : BOOLEAN, acc : BOOLEAN, root : {"table", "struct", "enum", "union", "none"}, tty : BOOLEAN]
Kinds == {"move", "follow", "dialog", "nothing", "grow", "shrink", "tiny"}
Init == c \in Requests /\ v = New /\ path = <<>>
Next == \/ v.phase = "new" /\ v' \in Start(c, v) /\ path' = <<"start">> /\ c' = c
        \/ /\ v.phase = "open" /\ Len(path) < Depth /\ v.term.cursor = FALSE
           /\ \E k \in Kinds : path' = Append(path, k)
           /\ v' \in Step(v) /\ c' = c
        \/ /\ v.phase = "open" /\ v.term.cursor = FALSE
           /\ v' \in Quit(v) /\ c' = c
           /\ \E k \in {"q", "C-c", "esc"} : path' = Append(path, k)

Restored == v.phase = "ended" => v.term = Normal
Verdict == v.phase = "ended" => (v.code = 0) = Opens(c)
OpenOnly == v.phase = "open" => Opens(c) /\ v.term.raw /\ v.term.alt
Export == v.phase = "ended" => PrintT("PROG " \o ToJson(<<c, path>>))
=============================================================================
