------------------------------- MODULE Format -------------------------------
(* Judges what the formatter did with a schema text.  A record is
     [b, ok, panic, out, ok2, out2, len, lok, lout, lerr, same]
   b: the bytes of the file;  ok, out: the formatter's answer and text;
   ok2, out2: its answer to out;  len: asked to go on in spite of errors
   (lok, lout, lerr: its answer and number of error diagnostics then);
   same: "yes" or "no", whether translating out gives what translating b gives, or
   "rejected" when b has no translation.                                      *)
EXTENDS Batch, Parse

Raw(b) == [utf8 |-> IsUtf8(b), lex |-> Lex(b)]

(* A comma before a closing bracket separates nothing: it may come and go. *)
Idle(T, p) == Sym(T, p, Comma) /\ (Sym(T, p + 1, ParC) \/ Sym(T, p + 1, SqC) \/ Sym(T, p + 1, BraC))
Tokens(T) == LET keep == {p \in 1..Len(T) : ~Idle(T, p)}
                 RECURSIVE From(_)
                 From(p) == IF p > Len(T) THEN <<>> ELSE (IF p \in keep THEN <<<<T[p].k, T[p].v>>>> ELSE <<>>) \o From(p + 1)
             IN  From(1)

(* The items of a file: the head of a declaration, each of its members, its closing
   brace when it has members, and the end of the file; by their first tokens.     *)
Items(T, ds) ==
    LET n == Len(ds)
        end(k) == IF k = n THEN Len(T) - 1 ELSE ds[k + 1].tok - 1
        kinds == {"table", "struct", "enum", "union"}
        members(k) ==
            IF ds[k].k \in kinds THEN {ds[k].b[j].tok : j \in 1..Len(ds[k].b)}
            ELSE IF ds[k].k = "rpc_service" THEN {p \in (ds[k].tok + 3)..(end(k) - 1) : Sym(T, p - 1, BraO) \/ Sym(T, p - 1, Semi)}
            ELSE {}
    IN  UNION {{ds[k].tok} \cup members(k) \cup (IF members(k) # {} THEN {end(k)} ELSE {}) : k \in 1..n} \cup {Len(T)}

(* blanks at the end of a comment are not part of it *)
RECURSIVE Trim(_)
Trim(s) ==
    LET n == Len(s) IN
    IF n > 0 /\ s[n] \in {9, 11, 12, 13, 32} THEN Trim(SubSeq(s, 1, n - 1))
    ELSE IF n > 1 /\ s[n] = 160 /\ s[n - 1] = 194 THEN Trim(SubSeq(s, 1, n - 2))
    ELSE s
(* every comment with the number of the item it belongs to *)
RECURSIVE Comments(_, _, _, _)
Comments(T, starts, p, n) ==
    IF p > Len(T) THEN <<>>
    ELSE LET m == IF p \in starts THEN n + 1 ELSE n
             all == T[p].pre \o T[p].post
         IN  [k \in 1..Len(all) |-> <<all[k].k, Trim(all[k].v), m>>] \o Comments(T, starts, p + 1, m)

FirstDifference(x, y) ==
    LET d == {k \in 1..Len(x) : k > Len(y) \/ x[k] # y[k]} IN
    IF d = {} THEN <<"more comments", Len(x), Len(y)>>
    ELSE LET k == CHOOSE k \in d : \A j \in d : k <= j IN <<k, x[k], IF k > Len(y) THEN "gone" ELSE y[k]>>

Same(a, o) ==
    LET p == Parse(a) q == Parse(o) IN
    IF ~q.ok THEN <<"the result does not parse">>
    ELSE IF Tokens(a) # Tokens(o) THEN <<"tokens changed">>
    ELSE LET x == Comments(a, Items(a, p.n), 1, 0)
             y == Comments(o, Items(o, q.n), 1, 0)
         IN  IF x # y THEN <<"comments changed", FirstDifference(x, y)>> ELSE <<>>

Why(r) ==
    LET s == Raw(r.b)
        valid == s.utf8 /\ s.lex.ok /\ Parse(s.lex.toks).ok
        t == Raw(r.out)
    IN  IF r.panic # "" THEN <<"panic", r.panic>>
        ELSE IF ~valid
        THEN IF r.ok THEN <<"formatted a file that does not parse">>
             ELSE IF r.len /\ r.lerr = 0 THEN <<"went on without a diagnostic">>
             ELSE <<>>
        ELSE IF ~r.ok THEN <<"refused a file that parses">>
        ELSE IF ~(t.utf8 /\ t.lex.ok) THEN <<"the result has no tokens">>
        ELSE LET w == Same(s.lex.toks, t.lex.toks) IN
             IF w # <<>> THEN w
             ELSE IF ~r.ok2 \/ r.out2 # r.out THEN <<"formatting again changes it">>
             ELSE IF r.len /\ (~r.lok \/ r.lout # r.out) THEN <<"differs when asked to go on in spite of errors">>
             ELSE IF r.same = "no" THEN <<"the result does not mean the same">>
             ELSE <<>>
Accepted == Verdict(i, Why(Rec(i)))
=============================================================================
