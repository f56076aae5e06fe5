--------------------------- MODULE GenerateJudge ---------------------------
(* Judges the Rust code generated for a project.  A record is [files, main, obs];
   obs is [ok, panic, gen, same, parse, rustc, items]:
     gen     why no text was generated ("": it was)
     same    the text is the same in another process
     parse   why the text is not Rust ("": it is)
     rustc   the first errors of the compiler for the text and for code that uses
             what it declares ("": none; "-": not compiled)                    *)
EXTENDS Batch, Generate

Why(r) ==
    LET o == r.obs
        M == Meaning(r)
        c == TLCEval([k \in 1..Len(M.E) |-> Candidates(M, k, o.items)])
        path(j) == Append(o.items[j].m, o.items[j].n)
        wrong(ch) == LET at == [k \in 1..Len(ch) |-> path(ch[k])] IN
                     {<<k, Wrong(M, at, k, o.items[ch[k]], o.items)>> : k \in 1..Len(ch)}
        good(ch) == \A w \in wrong(ch) : w[2] = ""
    IN  IF o.panic # "" THEN <<"crash", o.panic>>
        ELSE IF ~o.ok THEN (IF M.why = {} THEN <<"rejected although it is valid">> ELSE <<>>)
        ELSE IF M.why # {} THEN <<>>       \* what is accepted wrongly is judged elsewhere
        ELSE IF o.gen # "" THEN <<"nothing generated", o.gen>>
        ELSE IF ~o.same THEN <<"generated differently in another process">>
        ELSE IF o.parse # "" THEN <<"not Rust", o.parse>>
        ELSE IF ~WellScoped(o.items) THEN <<"a name is declared twice">>
        ELSE IF \E k \in 1..Len(c) : c[k] = {} THEN <<"no item for", M.E[CHOOSE k \in 1..Len(c) : c[k] = {}].d.k, CHOOSE k \in 1..Len(c) : c[k] = {}>>
        ELSE LET chs == Choices(c, 1, <<>>) IN
             IF chs = {} THEN <<"two declarations share an item">>
             ELSE IF ~\E ch \in chs : good(ch) THEN <<"declaration", CHOOSE w \in wrong(CHOOSE ch \in chs : TRUE) : w[2] # "">>
             ELSE IF o.rustc \notin {"", "-"} THEN <<"does not compile", o.rustc>>
             ELSE <<>>

Accepted == Verdict(i, Why(Rec(i)))
=============================================================================
