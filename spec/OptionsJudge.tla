---------------------------- MODULE OptionsJudge ----------------------------
(* Judges the verdict of the program, run with options, over a project: a record
   is [files, main, opt, obs] with obs as in SchemaJudge, of which only ok, panic
   and errors are known.                                                     *)
EXTENDS Batch, Schema

Why(r) ==
    LET o == r.obs
        M == Meaning(r)
    IN  IF o.panic # "" THEN <<"crash", o.panic>>
        ELSE IF M.why # {} /\ o.ok THEN <<"accepted although", M.why>>
        ELSE IF M.why = {} /\ ~o.ok THEN <<"rejected although it is valid">>
        ELSE IF M.why # {} /\ o.errors = 0 THEN <<"rejected without a diagnostic", M.why>>
        ELSE <<>>

Accepted == Verdict(i, Why(Rec(i)))
=============================================================================
