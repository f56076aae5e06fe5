-------------------------------- MODULE Lex --------------------------------
(* The tokens of a schema file, from its bytes: identifiers, numbers, string
   literals (decoded), symbols and comments.  A token is
       [k, v, s, e, pre, post]
   k: "id" | "int" | "flt" | "str" | "sym" | "eof";  v: its bytes (for "str" the
   decoded text, for "sym" the one byte);  s, e: first byte and the byte after
   the last, from 1;  pre: the comments before it;  post: the comment after it
   on the same line, as a sequence of at most one.  A comment is [k, v, s] with
   k "c", "o" (///) or "i" (//!).                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Digit == 48..57
Alpha == (65..90) \cup (97..122) \cup {95}
AlNum == Alpha \cup Digit
HexLetters == (65..70) \cup (97..102)
HexDigit == Digit \cup HexLetters
DigitU == Digit \cup {95}
HexU == HexDigit \cup {95}
Blank == {32, 9, 12}
Symbols == {43, 45, 59, 58, 44, 46, 61, 40, 41, 123, 125, 91, 93}

At(t, p) == IF p <= Len(t) THEN t[p] ELSE -1
RECURSIVE Run(_, _, _)
Run(t, p, s) == IF p <= Len(t) /\ t[p] \in s THEN Run(t, p + 1, s) ELSE p
RECURSIVE Until(_, _, _)
Until(t, p, c) == IF p > Len(t) \/ t[p] = c THEN p ELSE Until(t, p + 1, c)
Max(a, b) == IF a >= b THEN a ELSE b

-----------------------------------------------------------------------------
(* Well-formed UTF-8 *)
Cont(t, p) == At(t, p) \in 128..191
RECURSIVE Utf8(_, _)
Utf8(t, p) ==
    IF p > Len(t) THEN TRUE
    ELSE LET b == t[p] IN
         IF b < 128 THEN Utf8(t, p + 1)
         ELSE IF b \in 194..223 THEN Cont(t, p + 1) /\ Utf8(t, p + 2)
         ELSE IF b \in 224..239
              THEN /\ Cont(t, p + 1) /\ Cont(t, p + 2)
                   /\ (b = 224 => t[p + 1] >= 160)
                   /\ (b = 237 => t[p + 1] < 160)
                   /\ Utf8(t, p + 3)
         ELSE IF b \in 240..244
              THEN /\ Cont(t, p + 1) /\ Cont(t, p + 2) /\ Cont(t, p + 3)
                   /\ (b = 240 => t[p + 1] >= 144)
                   /\ (b = 244 => t[p + 1] < 144)
                   /\ Utf8(t, p + 4)
         ELSE FALSE
IsUtf8(t) == (\A p \in 1..Len(t) : t[p] < 128) \/ Utf8(t, 1)

Encode(c) ==
    IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
    ELSE <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

-----------------------------------------------------------------------------
(* Numbers: every way of reading one that starts at p; the longest wins.    *)
Sign(t, p) == IF At(t, p) \in {43, 45} THEN p + 1 ELSE p
Exponent(t, p, letters) ==      \* end of the exponent at p, or p when there is none
    IF At(t, p) \in letters /\ At(t, Sign(t, p + 1)) \in Digit
    THEN Run(t, Sign(t, p + 1), Digit) ELSE p
IntEnd(t, p) ==
    IF At(t, p) \notin Digit THEN p
    ELSE IF t[p] = 48 /\ At(t, p + 1) = 120 /\ At(t, p + 2) \in HexU
         THEN Run(t, p + 2, HexU)
         ELSE Run(t, p, DigitU)
(* digits with a period, or without one; 0 when neither is there *)
Mantissa(t, p, digits) ==
    LET a == Run(t, p, digits) IN
    IF At(t, a) = 46
    THEN LET b == Run(t, a + 1, digits) IN IF b = a + 1 /\ a = p THEN 0 ELSE b
    ELSE 0
DecFloatEnd(t, p) ==
    LET m == Mantissa(t, p, Digit)
        a == Run(t, p, Digit)
    IN  IF m # 0 THEN Exponent(t, m, {69, 101})
        ELSE IF a > p /\ Exponent(t, a, {69, 101}) > a THEN Exponent(t, a, {69, 101})
        ELSE p
HexFloatEnd(t, p) ==
    IF At(t, p) = 48 /\ At(t, p + 1) \in {88, 120}
    THEN LET q == p + 2
             m == IF Mantissa(t, q, HexDigit) # 0 THEN Mantissa(t, q, HexDigit)
                  ELSE Run(t, q, HexDigit)
         IN  IF m > q /\ Exponent(t, m, {80, 112}) > m THEN Exponent(t, m, {80, 112}) ELSE p
    ELSE p
FloatEnd(t, p) == Max(DecFloatEnd(t, p), HexFloatEnd(t, p))

-----------------------------------------------------------------------------
(* String literals: [ok, v, p], p the byte after the closing quote, or where
   the first malformed part starts.                                         *)
Nibble(b) == IF b \in Digit THEN b - 48 ELSE IF b >= 97 THEN b - 87 ELSE b - 55
EscapeOf(b) ==
    CASE b = 110 -> 10 [] b = 116 -> 9 [] b = 114 -> 13 [] b = 98 -> 8 [] b = 102 -> 12
      [] b \in {34, 39, 47, 92} -> b [] OTHER -> -1
RECURSIVE Str(_, _, _, _)
Str(t, p, q, out) ==
    LET b == At(t, p) IN
    IF b = -1 THEN [ok |-> FALSE, v |-> out, p |-> p]
    ELSE IF b = q THEN [ok |-> TRUE, v |-> out, p |-> p + 1]
    ELSE IF b # 92 THEN Str(t, p + 1, q, Append(out, b))
    ELSE LET c == At(t, p + 1) IN
         IF c = 117 /\ \A k \in 2..5 : At(t, p + k) \in HexDigit
         THEN LET n == 4096 * Nibble(t[p + 2]) + 256 * Nibble(t[p + 3]) + 16 * Nibble(t[p + 4]) + Nibble(t[p + 5])
              IN  IF n \in 55296..57343 THEN [ok |-> FALSE, v |-> out, p |-> p]
                  ELSE Str(t, p + 6, q, out \o Encode(n))
         ELSE IF c = 120 /\ At(t, p + 2) \in 48..55 /\ At(t, p + 3) \in HexDigit
         THEN Str(t, p + 4, q, Append(out, 16 * Nibble(t[p + 2]) + Nibble(t[p + 3])))
         ELSE IF EscapeOf(c) >= 0 THEN Str(t, p + 2, q, Append(out, EscapeOf(c)))
         ELSE [ok |-> FALSE, v |-> out, p |-> p]

-----------------------------------------------------------------------------
CommentAt(t, p) ==
    LET e == Until(t, p, 10)
        k == IF At(t, p + 2) = 47 THEN "o" ELSE IF At(t, p + 2) = 33 THEN "i" ELSE "c"
        a == IF k = "c" THEN p + 2 ELSE p + 3
        z == IF At(t, e) = 10 /\ e - 1 >= a /\ t[e - 1] = 13 THEN e - 2 ELSE e - 1   \* the end of line is not text
    IN  [c |-> [k |-> k, v |-> SubSeq(t, a, z), s |-> p], p |-> e]

Token(k, v, s, e, pre) == [k |-> k, v |-> v, s |-> s, e |-> e, pre |-> pre, post |-> <<>>]
RECURSIVE LexFrom(_, _, _, _, _)
(* same: still on the line of the last token, with no comment yet *)
LexFrom(t, p, toks, pre, same) ==
    LET b == At(t, p) IN
    IF b = -1 THEN [ok |-> TRUE, toks |-> Append(toks, Token("eof", <<>>, p, p, pre)), p |-> p]
    ELSE IF b \in Blank THEN LexFrom(t, Run(t, p, Blank), toks, pre, same)
    ELSE IF b = 10 THEN LexFrom(t, p + 1, toks, pre, FALSE)
    ELSE IF b = 13 /\ At(t, p + 1) = 10 THEN LexFrom(t, p + 2, toks, pre, FALSE)
    ELSE IF b = 47 /\ At(t, p + 1) = 47
    THEN LET c == CommentAt(t, p) IN
         IF same THEN LexFrom(t, c.p, [toks EXCEPT ![Len(toks)].post = <<c.c>>], pre, FALSE)
         ELSE LexFrom(t, c.p, toks, Append(pre, c.c), FALSE)
    ELSE IF b \in Alpha
    THEN LET e == Run(t, p, AlNum) IN
         LexFrom(t, e, Append(toks, Token("id", SubSeq(t, p, e - 1), p, e, pre)), <<>>, TRUE)
    ELSE IF b \in {34, 39}
    THEN LET r == Str(t, p + 1, b, <<>>) IN
         IF r.ok THEN LexFrom(t, r.p, Append(toks, Token("str", r.v, p, r.p, pre)), <<>>, TRUE)
         ELSE [ok |-> FALSE, toks |-> toks, p |-> r.p]
    ELSE LET i == IntEnd(t, p)
             f == FloatEnd(t, p)
         IN  IF f > p /\ f > i THEN LexFrom(t, f, Append(toks, Token("flt", SubSeq(t, p, f - 1), p, f, pre)), <<>>, TRUE)
             ELSE IF i > p THEN LexFrom(t, i, Append(toks, Token("int", SubSeq(t, p, i - 1), p, i, pre)), <<>>, TRUE)
             ELSE IF b \in Symbols THEN LexFrom(t, p + 1, Append(toks, Token("sym", <<b>>, p, p + 1, pre)), <<>>, TRUE)
             ELSE [ok |-> FALSE, toks |-> toks, p |-> p]

Lex(t) == LexFrom(t, 1, <<>>, <<>>, FALSE)
=============================================================================
