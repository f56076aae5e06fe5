-------------------------------- MODULE Cli --------------------------------
(* The command line tool.  A file system is a function from names to entries:
     <<"none">>, <<"dir">> or <<"file", content>>.
   A command is a record [op, in, out, fmt, rustfmt]:
     op       "check", "rust", "dot", "format" or "view"
     in       the names of its inputs
     out      the name of the output file ("" when the command has none)
     fmt      rust: whether the code is to be formatted
     rustfmt  what the external formatter would do: "works" or "fails"
   What the tool says about the inputs is a parameter:
     acc      the inputs, with what they include, are a valid schema
     parses   the (first) input is a text that parses
     full     the complete output.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Entry(fs, n) == IF n \in DOMAIN fs THEN fs[n] ELSE <<"none">>
IsFile(fs, n) == Entry(fs, n)[1] = "file"
(* parent(n): the name of the directory of n, "" for the working directory *)
Writable(fs, n, parent) == /\ Entry(fs, n)[1] # "dir"
                           /\ parent = "" \/ Entry(fs, parent)[1] = "dir"

Succeeds(fs, c, acc, parses, parent) ==
    LET readable == \A k \in 1..Len(c.in) : IsFile(fs, c.in[k]) IN
    CASE c.op = "check" -> readable /\ acc
      [] c.op = "rust" -> readable /\ acc /\ (c.fmt => c.rustfmt = "works") /\ Writable(fs, c.out, parent)
      [] c.op = "dot" -> readable /\ acc /\ Writable(fs, c.out, parent)
      [] c.op = "format" -> readable /\ parses
      [] c.op = "view" -> FALSE            \* asked for a type that does not exist

Writes(c) == c.op \in {"rust", "dot"}
After(fs, c, ok, full) ==
    IF ok /\ Writes(c)
    THEN [n \in DOMAIN fs \cup {c.out} |-> IF n = c.out THEN <<"file", full>> ELSE fs[n]]
    ELSE fs
=============================================================================
