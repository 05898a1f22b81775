-------------------------------- MODULE Big --------------------------------
(* Integers of any size, for judgements that do not fit in TLC's 32 bits: [neg, mag], mag the base 10^4 digits of the   *)
(* magnitude, least significant first, without leading zeros; zero is not negative. *)
EXTENDS Integers, Sequences, SequencesExt
LOCAL B == 10000
LOCAL Dig(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
RECURSIVE BigTrim(_)
BigTrim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN BigTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a
LOCAL Make(neg, mag) == LET m == BigTrim(mag) IN [neg |-> neg /\ m # <<>>, mag |-> m]
BigOf(n) == LET a == IF n < 0 THEN -n ELSE n IN Make(n < 0, <<a % B, (a \div B) % B, a \div (B * B)>>)
Zero == BigOf(0)
One == BigOf(1)
LOCAL Longer(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
LOCAL Range1(n) == [i \in 1..n |-> i]
LOCAL MagAdd(a, b) ==
    LET r == FoldLeft(LAMBDA acc, i : LET s == Dig(a, i) + Dig(b, i) + acc.c IN [d |-> Append(acc.d, s % B), c |-> s \div B],
                      [d |-> <<>>, c |-> 0], Range1(Longer(a, b)))
    IN  Append(r.d, r.c)
\* For a >= b
LOCAL MagSub(a, b) ==
    FoldLeft(LAMBDA acc, i : LET s == Dig(a, i) - Dig(b, i) - acc.c IN [d |-> Append(acc.d, s % B), c |-> IF s < 0 THEN 1 ELSE 0],
             [d |-> <<>>, c |-> 0], Range1(Len(a))).d
LOCAL MagCmp(a, b) == IF Len(a) # Len(b) THEN IF Len(a) < Len(b) THEN -1 ELSE 1
                      ELSE FoldLeft(LAMBDA acc, i : IF a[i] = b[i] THEN acc ELSE IF a[i] < b[i] THEN -1 ELSE 1, 0, Range1(Len(a)))
LOCAL MagScale(a, d) ==
    LET r == FoldLeft(LAMBDA acc, x : LET s == x * d + acc.c IN [d |-> Append(acc.d, s % B), c |-> s \div B], [d |-> <<>>, c |-> 0], a)
    IN  Append(r.d, r.c)
LOCAL MagMul(a, b) == FoldRight(LAMBDA d, acc : MagAdd(<<0>> \o acc, MagScale(a, d)), b, <<>>)
Neg(x) == Make(~x.neg, x.mag)
AbsB(x) == [neg |-> FALSE, mag |-> x.mag]
Plus(x, y) == IF x.neg = y.neg THEN Make(x.neg, MagAdd(x.mag, y.mag))
              ELSE IF MagCmp(x.mag, y.mag) >= 0 THEN Make(x.neg, MagSub(x.mag, y.mag)) ELSE Make(y.neg, MagSub(y.mag, x.mag))
Minus(x, y) == Plus(x, Neg(y))
Times(x, y) == IF x.mag = <<>> \/ y.mag = <<>> THEN Zero ELSE Make(x.neg # y.neg, MagMul(x.mag, y.mag))
TimesI(x, n) == Times(x, BigOf(n))
\* -1, 0 or 1
Cmp(x, y) == IF x.neg # y.neg THEN IF x.neg THEN -1 ELSE 1 ELSE IF x.neg THEN -MagCmp(x.mag, y.mag) ELSE MagCmp(x.mag, y.mag)
LeqB(x, y) == Cmp(x, y) <= 0
RECURSIVE Power(_, _)
Power(x, n) == IF n = 0 THEN One ELSE Times(x, Power(x, n - 1))
SumB(s) == FoldLeft(LAMBDA a, b : Plus(a, b), Zero, s)

(* Rationals [n, d], d > 0, not reduced *)
Rat(n, d) == [n |-> n, d |-> d]
RatI(n) == [n |-> BigOf(n), d |-> One]
RPlus(x, y) == Rat(Plus(Times(x.n, y.d), Times(y.n, x.d)), Times(x.d, y.d))
RTimes(x, y) == Rat(Times(x.n, y.n), Times(x.d, y.d))
RNeg(x) == Rat(Neg(x.n), x.d)
RInv(x) == IF x.n.neg THEN Rat(Neg(x.d), Neg(x.n)) ELSE Rat(x.d, x.n)
RDiv(x, y) == RTimes(x, RInv(y))
REq(x, y) == Cmp(Times(x.n, y.d), Times(y.n, x.d)) = 0
RLeq(x, y) == LeqB(Times(x.n, y.d), Times(y.n, x.d))
RECURSIVE RPower(_, _)
RPower(x, n) == IF n = 0 THEN RatI(1) ELSE RTimes(x, RPower(x, n - 1))
RSign(x) == IF x.n.neg THEN -1 ELSE IF x.n.mag = <<>> THEN 0 ELSE 1

(* |q / scale - x| <= tol / scale, for an integer q *)
NearRat(q, scale, x, tol) ==
    LET diff == Minus(TimesI(x.d, q), TimesI(x.n, scale)) IN LeqB(AbsB(diff), TimesI(x.d, tol))
(* q / scale is within tol / scale of the p-th root of x of the given sign (x >= 0) *)
NearRoot(q, scale, x, p, sign, tol) ==
    /\ (sign * q >= -tol)
    /\ LET a == IF q < 0 THEN -q ELSE q
           lo == IF a > tol THEN a - tol ELSE 0
           s == Times(x.n, Power(BigOf(scale), p))
       IN  LeqB(Times(Power(BigOf(lo), p), x.d), s) /\ LeqB(s, Times(Power(BigOf(a + tol), p), x.d))
=============================================================================
