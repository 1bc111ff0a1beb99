------------------------------- MODULE XBytes -------------------------------
(* Fixed-width machine values.  TLC integers have 32 bits, so an integer of the library is the sequence of its       *)
(* bytes, least significant first.  A floating point value is <<q>>, meaning exactly q/4 (histories only use such    *)
(* values); anything else has another length and so equals no value the specification can predict.                   *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

ANY == <<-9, -9>>                     \* "the specification says nothing about this value"

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Zeros(n) == TLCEval([i \in 1..n |-> 0])

RECURSIVE ToBytes(_, _)
ToBytes(v, n) == IF n = 0 THEN <<>> ELSE <<v % 256>> \o ToBytes(v \div 256, n - 1)

IsNeg(b) == b[Len(b)] >= 128
IsZero(b) == \A i \in 1..Len(b) : b[i] = 0

Resize(b, signed, n) ==
    LET fill == IF signed /\ IsNeg(b) THEN 255 ELSE 0
    IN  TLCEval([i \in 1..n |-> IF i <= Len(b) THEN b[i] ELSE fill])

\* The value as a TLC integer, for those that fit in 24 bits.
IsSmall(b, signed) ==
    LET neg == signed /\ IsNeg(b)
        fill == IF neg THEN 255 ELSE 0
        x == Resize(b, signed, Max2(4, Len(b)))
    IN  (\A i \in 4..Len(x) : x[i] = fill) /\ (neg => x[3] >= 128 \/ Len(b) < 3) /\ (~neg => x[3] < 128)
SmallVal(b, signed) ==
    LET x == Resize(b, signed, 3)
        u == x[1] + 256 * x[2] + 65536 * x[3]
    IN  IF signed /\ IsNeg(b) THEN u - 16777216 ELSE u

RECURSIVE AddC(_, _, _, _)
AddC(a, b, i, c) ==
    IF i > Len(a) THEN <<>>
    ELSE LET s == a[i] + b[i] + c IN <<s % 256>> \o AddC(a, b, i + 1, s \div 256)
Add(a, b) == AddC(a, b, 1, 0)
Inv(a) == TLCEval([i \in 1..Len(a) |-> 255 - a[i]])
One(n) == TLCEval([i \in 1..n |-> IF i = 1 THEN 1 ELSE 0])
Neg(a) == Add(Inv(a), One(Len(a)))
Sub(a, b) == AddC(a, Inv(b), 1, 1)
AndB(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] & b[i]])
OrB(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] | b[i]])
XorB(a, b) == TLCEval([i \in 1..Len(a) |-> a[i] ^^ b[i]])

\* one bit to the left / to the right (with the bit that comes in)
Shl1(a, c) == TLCEval([i \in 1..Len(a) |-> (2 * a[i] + (IF i = 1 THEN c ELSE a[i - 1] \div 128)) % 256])
Shr1(a, c) == TLCEval([i \in 1..Len(a) |-> (a[i] \div 2) + 128 * (IF i = Len(a) THEN c ELSE a[i + 1] % 2)])
RECURSIVE Shl(_, _)
Shl(a, n) == IF n <= 0 THEN a ELSE Shl(Shl1(a, 0), n - 1)
RECURSIVE Shr(_, _, _)
Shr(a, n, signed) == IF n <= 0 THEN a ELSE Shr(Shr1(a, IF signed /\ IsNeg(a) THEN 1 ELSE 0), n - 1, signed)

\* Schoolbook product, modulo the width
RECURSIVE MulDigit(_, _, _, _)
MulDigit(a, d, i, c) ==
    IF i > Len(a) THEN <<>>
    ELSE LET p == a[i] * d + c IN <<p % 256>> \o MulDigit(a, d, i + 1, p \div 256)
RECURSIVE MulFrom(_, _, _)
MulFrom(a, b, j) ==
    IF j > Len(b) THEN Zeros(Len(a))
    ELSE LET row == MulDigit(a, b[j], 1, 0)
             shifted == TLCEval([i \in 1..Len(a) |-> IF i < j THEN 0 ELSE row[i - j + 1]])
         IN  Add(shifted, MulFrom(a, b, j + 1))
Mul(a, b) == MulFrom(a, b, 1)

RECURSIVE LtU(_, _, _)
LtU(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LtU(a, b, i - 1)
Lt(a, b, signed) ==
    IF signed /\ IsNeg(a) # IsNeg(b) THEN IsNeg(a) ELSE LtU(a, b, Len(a))

\* Restoring division, bit by bit: <<quotient, remainder>>
Bit(a, k) == (a[(k \div 8) + 1] \div (2 ^ (k % 8))) % 2
RECURSIVE DivStep(_, _, _, _, _)
DivStep(a, b, k, q, r) ==
    IF k < 0 THEN <<q, r>>
    ELSE LET over == IsNeg(r)                       \* the bit shifted out
             r1 == Shl1(r, Bit(a, k))
             fits == over \/ ~LtU(r1, b, Len(b))
         IN  DivStep(a, b, k - 1, Shl1(q, IF fits THEN 1 ELSE 0), IF fits THEN Sub(r1, b) ELSE r1)
DivU(a, b) == DivStep(a, b, 8 * Len(a) - 1, Zeros(Len(a)), Zeros(Len(a)))
AbsB(a) == IF IsNeg(a) THEN Neg(a) ELSE a
Div(a, b, signed) ==
    IF ~signed THEN DivU(a, b)[1]
    ELSE LET q == DivU(AbsB(a), AbsB(b))[1] IN IF IsNeg(a) # IsNeg(b) THEN Neg(q) ELSE q
Mod(a, b, signed) ==
    IF ~signed THEN DivU(a, b)[2]
    ELSE LET r == DivU(AbsB(a), AbsB(b))[2] IN IF IsNeg(a) THEN Neg(r) ELSE r

\* Decimal digits (as character codes)
RECURSIVE DivTen(_, _, _)
DivTen(a, i, r) ==                                   \* <<quotient bytes from i down, remainder>>
    IF i = 0 THEN <<<<>>, r>>
    ELSE LET x == r * 256 + a[i]
             rest == DivTen(a, i - 1, x % 10)
         IN  <<Append(rest[1], x \div 10), rest[2]>>
RECURSIVE DigitsU(_)
DigitsU(a) ==
    LET d == DivTen(a, Len(a), 0)
    IN  IF IsZero(d[1]) THEN <<48 + d[2]>> ELSE Append(DigitsU(d[1]), 48 + d[2])
Digits(a, signed) == IF signed /\ IsNeg(a) THEN <<45>> \o DigitsU(Neg(a)) ELSE DigitsU(a)

RECURSIVE DigitsN(_)
DigitsN(n) == IF n < 10 THEN <<48 + n>> ELSE Append(DigitsN(n \div 10), 48 + (n % 10))

\* Character codes as a string
Ascii == << " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
            "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?",
            "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O",
            "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_",
            "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o",
            "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}", "~" >>
RECURSIVE Text(_)
Text(cs) == IF cs = <<>> THEN "" ELSE Ascii[Head(cs) - 31] \o Text(Tail(cs))
Num(n) == Text(DigitsN(n))
RECURSIVE Spaces(_)
Spaces(n) == IF n = 0 THEN "" ELSE " " \o Spaces(n - 1)
=============================================================================
