------------------------------- MODULE Viewer -------------------------------
(* The viewer: what it is asked for, the terminal it runs in.
   A request c is [data, acc, root, tty]:
     data  the buffer can be read
     acc   the schema file is a valid schema
     root  what the type named is: "table", "struct", "enum", "union" or "none"
     tty   there is a terminal
   A terminal is [raw, alt, cursor]: reads key by key, shows the second screen,
   shows the cursor.  A viewer is [phase, term, code].                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Normal == [raw |-> FALSE, alt |-> FALSE, cursor |-> TRUE]
Opens(c) == c.data /\ c.acc /\ c.root = "table" /\ c.tty

New == [phase |-> "new", term |-> Normal, code |-> -1]
Open(v, hidden) == [v EXCEPT !.phase = "open", !.term = [raw |-> TRUE, alt |-> TRUE, cursor |-> ~hidden]]
Start(c, v) == IF Opens(c) THEN {Open(v, h) : h \in BOOLEAN}
               ELSE {[v EXCEPT !.phase = "ended", !.code = 1]}
(* a key may end it; showing and hiding the cursor is its own business while it is open *)
Step(v) == {Open(v, h) : h \in BOOLEAN}
Quit(v) == {[phase |-> "ended", term |-> Normal, code |-> 0]}

(* The tables that may be proposed for a name that names no type: those whose
   path has the characters of the name in this order; small letters also match
   capital ones if the name has no capital letter.                          *)
Upper(x) == x \in 65..90
Fold(x) == IF Upper(x) THEN x + 32 ELSE x
Cased(p) == \E k \in 1..Len(p) : Upper(p[k])
RECURSIVE SubFrom(_, _, _, _, _)
SubFrom(p, s, a, b, cased) ==
    IF a > Len(p) THEN TRUE
    ELSE IF b > Len(s) THEN FALSE
    ELSE IF p[a] = (IF cased THEN s[b] ELSE Fold(s[b])) THEN SubFrom(p, s, a + 1, b + 1, cased)
    ELSE SubFrom(p, s, a, b + 1, cased)
Matches(p, s) == SubFrom(p, s, 1, 1, Cased(p))
RECURSIVE Dotted(_)
Dotted(path) == IF Len(path) = 1 THEN path[1] ELSE path[1] \o <<46>> \o Dotted(Tail(path))
=============================================================================
