-------------------------------- MODULE XStr --------------------------------
(* Unicode text and its encodings: 8-bit (UTF-8), 16-bit (UTF-16) and 32-bit code units, and what a conversion between *)
(* them must answer.  A text is a sequence of code points; the encodings are defined arithmetically, as in the         *)
(* Unicode standard (table 3-7 for the well-formed 8-bit sequences).                                                   *)
EXTENDS Integers, Sequences, TLC

IsScalar(c) == c \in 0..1114111 /\ c \notin 55296..57343

Enc8(c) ==
    IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
    ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Enc16(c) ==
    IF c < 65536 THEN <<c>>
    ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
Enc32(c) == <<c>>
Enc(w, c) == IF w = 8 THEN Enc8(c) ELSE IF w = 16 THEN Enc16(c) ELSE Enc32(c)

RECURSIVE Encode(_, _)
Encode(w, t) == IF t = <<>> THEN <<>> ELSE Enc(w, Head(t)) \o Encode(w, Tail(t))

\* One character from position i: its code point and how many units it takes.  n = 0: malformed;  n = -1: cut by the end.
Cont(s, i) == s[i] \in 128..191
Bad == [n |-> 0, c |-> 0]
Cut == [n |-> -1, c |-> 0]
First2(b, s, i) ==                                   \* the second unit's range depends on the first one
    LET lo == IF b = 224 THEN 160 ELSE IF b = 240 THEN 144 ELSE 128
        hi == IF b = 237 THEN 159 ELSE IF b = 244 THEN 143 ELSE 191
    IN  s[i + 1] \in lo..hi
Char8(s, i) ==
    LET b == s[i]
        left == Len(s) - i
    IN  IF b < 128 THEN [n |-> 1, c |-> b]
        ELSE IF b \notin 194..244 THEN Bad
        ELSE IF left < 1 THEN Cut
        ELSE IF ~First2(b, s, i) THEN Bad
        ELSE IF b < 224 THEN [n |-> 2, c |-> (b - 192) * 64 + s[i + 1] - 128]
        ELSE IF left < 2 THEN Cut
        ELSE IF ~Cont(s, i + 2) THEN Bad
        ELSE IF b < 240 THEN [n |-> 3, c |-> (b - 224) * 4096 + (s[i + 1] - 128) * 64 + s[i + 2] - 128]
        ELSE IF left < 3 THEN Cut
        ELSE IF ~Cont(s, i + 3) THEN Bad
        ELSE [n |-> 4, c |-> (b - 240) * 262144 + (s[i + 1] - 128) * 4096 + (s[i + 2] - 128) * 64 + s[i + 3] - 128]
Char16(s, i) ==
    LET u == s[i]
    IN  IF u \notin 55296..57343 THEN [n |-> 1, c |-> u]
        ELSE IF u >= 56320 THEN Bad
        ELSE IF i = Len(s) THEN Cut
        ELSE IF s[i + 1] \notin 56320..57343 THEN Bad
        ELSE [n |-> 2, c |-> 65536 + (u - 55296) * 1024 + (s[i + 1] - 56320)]
Char32(s, i) == IF IsScalar(s[i]) THEN [n |-> 1, c |-> s[i]] ELSE Bad
Char(w, s, i) == IF w = 8 THEN Char8(s, i) ELSE IF w = 16 THEN Char16(s, i) ELSE Char32(s, i)

\* The text that the units say, if they are well formed.
RECURSIVE DecodeFrom(_, _, _, _)
DecodeFrom(w, s, i, acc) ==
    IF i > Len(s) THEN [ok |-> TRUE, t |-> acc]
    ELSE LET ch == Char(w, s, i)
         IN  IF ch.n <= 0 THEN [ok |-> FALSE, t |-> acc] ELSE DecodeFrom(w, s, i + ch.n, Append(acc, ch.c))
Decode(w, s) == DecodeFrom(w, s, 1, <<>>)

\* What a conversion answers: the same text in the other encoding, or an error.
Convert(from, to, s) ==
    LET d == Decode(from, s)
    IN  IF d.ok THEN [ok |-> TRUE, out |-> Encode(to, d.t)] ELSE [ok |-> FALSE, out |-> <<>>]
=============================================================================
