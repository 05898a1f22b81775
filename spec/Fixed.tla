-------------------------------- MODULE Fixed --------------------------------
(* Real arithmetic on 32-bit integers.  A fixed-point number x stands for x / One; magnitudes stay below four where they *)
(* are multiplied.  Every operation is off by at most a few units; FixedMC checks the laws.                               *)
EXTENDS Integers, Sequences
One == 268435456                                  \* 2 ^ 28
FourLess == 1073741823
K14 == 16384                                      \* 2 ^ 14
Pi == 843314857
PiQuarter == 210828714
Ln2 == 186065279
FAbs(a) == IF a < 0 THEN -a ELSE a
FMax(a, b) == IF a < b THEN b ELSE a
Close(a, b, tol) == FAbs(a - b) <= tol

FMul(a, b) == LET ah == a \div K14 al == a % K14 bh == b \div K14 bl == b % K14
              IN ah * bh + (ah * bl + al * bh + (al * bl + 8192) \div K14 + 8192) \div K14
FSq(a) == FMul(a, a)

\* The fixed-point number n / d for 0 <= n, 0 < d < 2 ^ 24 and n / d < 8
RECURSIVE Digits(_, _, _)
Digits(r, d, k) == IF k = 0 THEN 0 ELSE LET t == r * 128 IN (t \div d) * (IF k = 4 THEN 2097152 ELSE IF k = 3 THEN 16384 ELSE IF k = 2 THEN 128 ELSE 1) + Digits(t % d, d, k - 1)
FFracN(n, d) == (n \div d) * One + Digits(n % d, d, 4)
FFrac(n, d) == IF n < 0 THEN -FFracN(-n, d) ELSE FFracN(n, d)

\* a / b of fixed-point numbers, where 0 < |b| < 4 and the quotient's magnitude is below eight
RECURSIVE Bits(_, _, _)
Bits(r, b, k) == IF k < 0 THEN 0 ELSE LET t == 2 * r IN IF t >= b THEN (2 ^ k) + Bits(t - b, b, k - 1) ELSE Bits(t, b, k - 1)
FDivP(a, b) == (a \div b) * One + Bits(a % b, b, 27)
FDiv(a, b) == IF (a < 0) # (b < 0) THEN -FDivP(FAbs(a), FAbs(b)) ELSE FDivP(FAbs(a), FAbs(b))

\* The square root of 0 <= a < 4
RECURSIVE RootBits(_, _, _)
RootBits(a, s, k) == IF k < 0 THEN s ELSE LET t == s + (2 ^ k) IN RootBits(a, IF FMul(t, t) <= a THEN t ELSE s, k - 1)
FSqrt(a) == RootBits(a, 0, 28)

\* Cosine and sine of 0 <= x <= pi / 4
CosSmall(x) == LET y == FMul(x, x) IN One - FMul(y, One \div 2 - FMul(y, One \div 24 - FMul(y, One \div 720 - FMul(y, One \div 40320 - FMul(y, One \div 3628800)))))
SincSmall(x) == LET y == FMul(x, x) IN One - FMul(y, One \div 6 - FMul(y, One \div 120 - FMul(y, One \div 5040 - FMul(y, One \div 362880))))
SinSmall(x) == FMul(x, SincSmall(x))
\* Cosine and sine of p / q turns, for 0 < q < 2000000
Eighths(n, d) == FMul(FFracN(8 * n, d), PiQuarter)            \* The angle of n / d <= 1 / 8 turns
CosQuarter(n, d) == IF 8 * n <= d THEN CosSmall(Eighths(n, d)) ELSE SinSmall(Eighths(d - 4 * n, 4 * d))
CosHalf(n, d) == IF 4 * n <= d THEN CosQuarter(n, d) ELSE -CosQuarter(d - 2 * n, 2 * d)
CosT(p, q) == LET r == p % q IN IF 2 * r <= q THEN CosHalf(r, q) ELSE CosHalf(q - r, q)
SinT(p, q) == CosT(4 * p - q, 4 * q)

\* The exponential of -8 < x <= 2
ExpSmall(x) == One + FMul(x, One + FMul(x, One \div 2 + FMul(x, One \div 6 + FMul(x, One \div 24 + FMul(x, One \div 120 +
               FMul(x, One \div 720 + FMul(x, One \div 5040 + FMul(x, One \div 40320 + FMul(x, One \div 362880)))))))))
FExp(x) == LET n == x \div Ln2 e == ExpSmall(x - n * Ln2) IN IF n < 0 THEN e \div (2 ^ (-n)) ELSE e * (2 ^ n)

\* The natural logarithm of 0 < a < 8
RECURSIVE Atanh2(_, _, _)
Atanh2(t, y, k) == IF k > 23 THEN 0 ELSE (2 * t) \div k + Atanh2(FMul(t, y), y, k + 2)
LnUnit(a) == LET t == FDiv(a - One, a + One) IN Atanh2(t, FMul(t, t), 1)      \* 1/2 <= a <= 2
RECURSIVE FLn(_)
FLn(a) == IF a < One \div 2 THEN FLn(2 * a) - Ln2 ELSE IF a >= 3 * (One \div 2) THEN FLn(a \div 2) + Ln2 ELSE LnUnit(a)

\* The error function, to a few millionths
ErfP(x) == LET t == FDiv(One, One + FMul(87937066, x))
           IN IF x >= 4 * One THEN One ELSE One - FMul(FMul(t, 68405298 - FMul(t, 76369011 - FMul(t, 381557846 - FMul(t, 390077527 - FMul(t, 284918850))))), FSq(FSq(FExp(-FSq(x \div 2)))))
FErf(x) == IF x < 0 THEN -ErfP(-x) ELSE ErfP(x)
=============================================================================
