------------------------------ MODULE Rationals ------------------------------
(* Registers that hold rationals <<n, d>>, in lowest terms with a positive denominator; all operations are exact.       *)
EXTENDS Big
Regs == 1..3
VARIABLE reg
vars == <<reg>>
RECURSIVE GcdN(_, _)
GcdN(a, b) == IF b = 0 THEN a ELSE GcdN(b, a % b)
AbsI(a) == IF a < 0 THEN -a ELSE a
Gcd(a, b) == GcdN(AbsI(a), AbsI(b))
Lowest(x) == x[2] > 0 /\ Gcd(x[1], x[2]) = 1
\* For d # 0
Norm(n, d) == LET g == Gcd(n, d) s == IF d < 0 THEN -1 ELSE 1 IN <<(s * n) \div g, (s * d) \div g>>
Init == reg = [k \in Regs |-> <<0, 1>>]

Limit == 30000
Small(x) == AbsI(x[1]) <= Limit /\ x[2] <= Limit
Whole(k) == <<k, 1>>
Sum(a, b) == Norm(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
Diff(a, b) == Norm(a[1] * b[2] - b[1] * a[2], a[2] * b[2])
Product(a, b) == Norm(a[1] * b[1], a[2] * b[2])
Quotient(a, b) == Norm(a[1] * b[2], a[2] * b[1])
Apply(f, a, b) == CASE f = "+" -> Sum(a, b) [] f = "-" -> Diff(a, b) [] f = "*" -> Product(a, b) [] OTHER -> Quotient(a, b)
Defined(f, a, b) == Small(a) /\ Small(b) /\ (IF f = "/" THEN b[1] # 0 ELSE TRUE)
FloorOf(a) == a[1] \div a[2]
CeilOf(a) == -((-a[1]) \div a[2])
Fraction(a) == Diff(a, Whole(FloorOf(a)))
\* -1, 0, 1
Compare(a, b) == Cmp(Times(BigOf(a[1]), BigOf(b[2])), Times(BigOf(b[1]), BigOf(a[2])))
\* ==, #, <, >, <=, >=
Relations(a, b) == LET c == Compare(a, b) t(p) == IF p THEN 1 ELSE 0 IN <<t(c = 0), t(c # 0), t(c < 0), t(c > 0), t(c <= 0), t(c >= 0)>>

(* Actions *)
Set(k, n, d) == d > 0 /\ reg' = [reg EXCEPT ![k] = Norm(n, d)]
Operate(k, f, a, b) == Defined(f, a, b) /\ reg' = [reg EXCEPT ![k] = Apply(f, a, b)]
Step(k, by) == Small(reg[k]) /\ reg' = [reg EXCEPT ![k] = Sum(reg[k], Whole(by))]
=============================================================================
