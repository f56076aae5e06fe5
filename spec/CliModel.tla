------------------------------ MODULE CliModel ------------------------------
(* Histories of commands and edits over a small set of files and contents.
   Contents are abstract here: "good" and "good2" are valid schemas, "bad" has
   a meaning no schema has, "ugly" does not parse, "bytes" is not text; "old"
   is what was in the output before.  What a command writes is named after its
   inputs.                                                                   *)
EXTENDS Cli, Json
CONSTANT Depth

Inputs == {"a.fbs", "b.fbs"}
Outs == {"out", "sub/out", "nodir/out", "sub"}
Parent == [n \in Outs \cup Inputs |-> CASE n = "sub/out" -> "sub" [] n = "nodir/out" -> "nodir" [] OTHER -> ""]
Contents == {"good", "good2", "bad", "ugly", "bytes"}
VARIABLES fs, path, ok
vars == <<fs, path, ok>>

Class(f, n) == IF IsFile(f, n) THEN Entry(f, n)[2][2] ELSE ""       \* inputs are texts
Accepts(in) == \A k \in 1..Len(in) : Class(fs, in[k]) \in {"good", "good2"}
Parses(in) == Class(fs, in[1]) \in {"good", "good2", "bad"}
Full(c) == <<c.op, c.fmt, [k \in 1..Len(c.in) |-> Class(fs, c.in[k])]>>

Commands ==
    {[op |-> "check", in |-> in, out |-> "", fmt |-> FALSE, rustfmt |-> "works"] : in \in {<<"a.fbs">>, <<"a.fbs", "b.fbs">>}}
    \cup {[op |-> "dot", in |-> in, out |-> o, fmt |-> FALSE, rustfmt |-> "works"] : in \in {<<"a.fbs">>, <<"b.fbs", "a.fbs">>}, o \in Outs}
    \cup {[op |-> "rust", in |-> in, out |-> o, fmt |-> f, rustfmt |-> t] : in \in {<<"a.fbs">>, <<"a.fbs", "b.fbs">>}, o \in {"out", "sub/out", "sub"}, f \in BOOLEAN, t \in {"works", "fails"}}
    \cup {[op |-> "format", in |-> <<n>>, out |-> "", fmt |-> FALSE, rustfmt |-> "works"] : n \in Inputs}

Init == /\ fs \in {[n \in {"a.fbs", "sub"} |-> IF n = "sub" THEN <<"dir">> ELSE <<"file", <<"text", x>>>>] : x \in Contents}
                  \cup {[n \in {"a.fbs", "out", "sub"} |-> CASE n = "sub" -> <<"dir">> [] n = "out" -> <<"file", <<"text", "old">>>> [] OTHER -> <<"file", <<"text", x>>>>] : x \in Contents}
        /\ path = <<<<"init", fs>>>>
        /\ ok = TRUE
Run(c) == LET s == Succeeds(fs, c, Accepts(c.in), Parses(c.in), IF c.out = "" THEN "" ELSE Parent[c.out]) IN
          /\ fs' = After(fs, c, s, Full(c))
          /\ ok' = s
          /\ path' = Append(path, <<"run", c>>)
Put(n, x) == /\ Entry(fs, n) # <<"file", <<"text", x>>>>
             /\ fs' = [m \in DOMAIN fs \cup {n} |-> IF m = n THEN <<"file", <<"text", x>>>> ELSE fs[m]]
             /\ path' = Append(path, <<"put", n, x>>)
             /\ ok' = TRUE
Mkdir(n) == /\ n \notin DOMAIN fs
            /\ fs' = [m \in DOMAIN fs \cup {n} |-> IF m = n THEN <<"dir">> ELSE fs[m]]
            /\ path' = Append(path, <<"mkdir", n>>)
            /\ ok' = TRUE
Remove(n) == /\ n \in DOMAIN fs
             /\ fs' = [m \in DOMAIN fs \ {n} |-> fs[m]]
             /\ path' = Append(path, <<"remove", n>>)
             /\ ok' = TRUE
Next == /\ Len(path) <= Depth
        /\ \/ \E c \in Commands : Run(c)
           \/ \E n \in Inputs, x \in Contents : Put(n, x)
           \/ \E n \in Inputs \cup {"out"} : Remove(n) \/ Mkdir(n)
Seen == <<fs, ok>>

(* an output file holds what was there before or a complete output of valid schemas *)
Outputs == \A o \in {"out", "sub/out"} : IsFile(fs, o) =>
              LET x == Entry(fs, o)[2] IN
              x = <<"text", "old">> \/ (x[1] \in {"rust", "dot"} /\ \A k \in 1..Len(x[3]) : x[3][k] \in {"good", "good2"})
(* the commands agree *)
Agree == \A c, d \in Commands : (Writes(c) /\ d.op = "check" /\ c.in = d.in /\ c.out = "out" /\ Entry(fs, "out") # <<"dir">> /\ (c.fmt => c.rustfmt = "works")) =>
             Succeeds(fs, c, Accepts(c.in), Parses(c.in), "") = Succeeds(fs, d, Accepts(d.in), Parses(d.in), "")
(* a command that fails changes nothing, and no command changes its inputs *)
Harmless == [][\A c \in Commands : path' = Append(path, <<"run", c>>) =>
                 /\ (~ok' => fs' = fs)
                 /\ \A n \in DOMAIN fs : n # c.out => n \in DOMAIN fs' /\ fs'[n] = fs[n]]_vars
(* Every state is exported with the shortest history that leads to it, and with the
   commands that leave all files as they are there: those lead to no new state.  *)
Idle == {c \in Commands : After(fs, c, Succeeds(fs, c, Accepts(c.in), Parses(c.in), IF c.out = "" THEN "" ELSE Parent[c.out]), Full(c)) = fs}
State == [n \in DOMAIN fs |-> IF fs[n][1] = "dir" THEN "dir" ELSE IF fs[n][2][1] = "text" THEN fs[n][2][2] ELSE "output"]
Export == PrintT("PROG " \o ToJson(<<path, State, Idle>>))
=============================================================================
