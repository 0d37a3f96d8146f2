-------------------------------- MODULE Words --------------------------------
(***************************************************************************)
(* Naturals beyond TLC's 32-bit integers, as little-endian sequences of    *)
(* base-256 digits of fixed width (8 digits = one 64-bit word).            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, Bitwise
LOCAL Max2(a, b) == IF a > b THEN a ELSE b

\* word of width w from a TLC integer 0 <= n < 2^31
FromInt(n, w) == [k \in 1..w |-> IF k = 1 THEN n % 256 ELSE IF k = 2 THEN (n \div 256) % 256
                                 ELSE IF k = 3 THEN (n \div 65536) % 256 ELSE IF k = 4 THEN n \div 16777216 ELSE 0]
ToInt(a) == a[1] + 256*a[2] + 65536*a[3] + 16777216*a[4]     \* only if it fits
Zero(w) == [k \in 1..w |-> 0]

RECURSIVE AddC(_, _, _, _)
\* (a + b + c) modulo 256^Len(a), starting from digit k
AddC(a, b, c, k) == IF k > Len(a) THEN <<>>
                    ELSE LET s == a[k] + b[k] + c IN <<s % 256>> \o AddC(a, b, s \div 256, k+1)
Add(a, b) == AddC(a, b, 0, 1)
Neg(a) == [k \in 1..Len(a) |-> 255 - a[k]]
Sub(a, b) == AddC(a, Neg(b), 1, 1)
RECURSIVE LessAt(_, _, _)
LessAt(a, b, k) == IF k = 0 THEN FALSE ELSE IF a[k] # b[k] THEN a[k] < b[k] ELSE LessAt(a, b, k-1)
Less(a, b) == LessAt(a, b, Len(a))
XorW(a, b) == [k \in 1..Len(a) |-> a[k] ^^ b[k]]
\* shift right by one bit
Shr1(a) == [k \in 1..Len(a) |-> (a[k] \div 2) + (IF k < Len(a) THEN 128 * (a[k+1] % 2) ELSE 0)]
Pow2(n) == 2^n
\* shift left by n bits
Shl(a, n) == LET q == n \div 8  r == n % 8
                 d(k) == IF k < 1 THEN 0 ELSE a[k]
             IN [k \in 1..Len(a) |-> ((d(k-q) * Pow2(r)) % 256) + (d(k-q-1) * Pow2(r)) \div 256]
RECURSIVE MulDigit(_, _, _, _)
MulDigit(a, m, c, k) == IF k > Len(a) THEN <<>>
                        ELSE LET s == a[k]*m + c IN <<s % 256>> \o MulDigit(a, m, s \div 256, k+1)
RECURSIVE MulFrom(_, _, _)
\* a * b modulo 256^Len(a)
MulFrom(a, b, k) == IF k > Len(b) THEN Zero(Len(a))
                    ELSE Add(Shl(MulDigit(a, b[k], 0, 1), 8*(k-1)), MulFrom(a, b, k+1))
Mul(a, b) == MulFrom(a, b, 1)
=============================================================================
