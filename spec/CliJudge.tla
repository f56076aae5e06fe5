------------------------------ MODULE CliJudge ------------------------------
(* C17: judges recorded runs of the command line tool.  A record is
     cmd      the command (Cli)
     files    the schema files there were: [name, b] (bytes)
     main     the numbers of the inputs among them (0: no such file)
     parent   the directory of the output file
     pre, post  all entries before and after: <<name, kind, digest>>
     full     digest of the complete output of the library for these files
     code     exit code (negative: ended by a signal)
     errs     number of error diagnostics
     out      formatter: digest of what was printed;   fullout: of the library's text
     free     the verdict is not judged (the input is too large), only that
              there is one                                                  *)
EXTENDS Batch, Schema, Cli

Fs(es) == [n \in {es[k][1] : k \in 1..Len(es)} |->
              LET e == es[CHOOSE k \in 1..Len(es) : es[k][1] = n] IN IF e[2] = "file" THEN <<"file", e[3]>> ELSE <<e[2]>>]

Why(r) ==
    LET c == r.cmd
        pre == Fs(r.pre)
        post == Fs(r.post)
        there == \A k \in 1..Len(r.main) : r.main[k] # 0
        acc == IF r.free THEN r.code = 0 ELSE there /\ Meaning([files |-> r.files, main |-> r.main]).why = {}
        parses == IF r.free THEN r.code = 0 ELSE there /\ ParseFile(r.files[r.main[1]].b).why = {}
        ok == Succeeds(pre, c, IF c.op = "format" THEN FALSE ELSE acc, IF c.op = "format" THEN parses ELSE FALSE, r.parent)
        want == After(pre, c, ok, r.full)
        differ == {n \in DOMAIN want \cup DOMAIN post : Entry(want, n) # Entry(post, n)}
    IN  IF r.code \notin {0, 1, 2} THEN <<"crash", r.code>>
        ELSE IF ok # (r.code = 0) THEN <<IF ok THEN "fails although it should succeed" ELSE "succeeds although it should fail", r.code>>
        ELSE IF ok /\ r.errs # 0 THEN <<"succeeds with an error diagnostic">>
        ELSE IF ~ok /\ r.errs = 0 /\ (c.op = "view" => ~acc) THEN <<"fails without a diagnostic">>
        ELSE IF differ # {} THEN <<"files", [n \in differ |-> <<Entry(pre, n), "became", Entry(post, n), "specified", Entry(want, n)>>]>>
        ELSE IF c.op = "format" /\ ok /\ r.out # r.fullout THEN <<"printed another text">>
        ELSE IF c.op = "format" /\ ~ok /\ r.out # "" THEN <<"printed a text in spite of failing">>
        ELSE <<>>
Accepted == Verdict(i, Why(Rec(i)))
=============================================================================
