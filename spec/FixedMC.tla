------------------------------- MODULE FixedMC -------------------------------
(* Laws of the fixed-point functions over a grid of arguments *)
EXTENDS Fixed, TLC
CONSTANTS Dens, Tol
VARIABLES p, q
vars == <<p, q>>
Init == q \in Dens /\ p = -q
MArgument == p < 2 * q /\ p' = p + 1 /\ UNCHANGED q
Next == MArgument
Spec == Init /\ [][Next]_vars
X == FFrac(p, q)
Trig == LET c == CosT(p, q) s == SinT(p, q) IN
    /\ Close(FSq(c) + FSq(s), One, Tol)
    /\ Close(CosT(2 * p, q), FSq(c) - FSq(s), Tol)
    /\ Close(SinT(2 * p, q), 2 * FMul(s, c), Tol)
    /\ Close(CosT(p + 1, q), FMul(c, CosT(1, q)) - FMul(s, SinT(1, q)), Tol)
    /\ CosT(-p, q) = c /\ SinT(-p, q) = -s
    /\ CosT(p + q, q) = c
Quotient == FAbs(X) >= One \div 8 => Close(FMul(FDiv(One \div 2, X), X), One \div 2, Tol)
Root == p >= 0 => Close(FSq(FSqrt(X)), X, Tol)
Exponential == LET e == FExp(X) IN
    /\ Close(FMul(FExp(-X), IF e < 4 * One THEN e ELSE e \div 2), IF e < 4 * One THEN One ELSE One \div 2, Tol)
    /\ e < 4 * One => Close(FSq(FExp(X \div 2)), e, 4 * Tol)
    /\ X > -2 * One => Close(FLn(e), X, 4 * Tol)
\* erf(0.5), erf(1), erf(2), monotone
ErrorFunction == /\ X >= 0 => FErf(X + One \div 16) >= FErf(X) - 60 /\ FErf(-X) = -FErf(X)
                 /\ Close(FErf(One \div 2), 139720622, 100) /\ Close(FErf(One), 226210772, 100) /\ Close(FErf(2 * One), 267179786, 100)
Known == /\ CosT(0, 1) = One /\ Close(SinT(1, 12), One \div 2, 4) /\ Close(CosT(1, 8), 189812531, 4)
         /\ Close(FExp(One), 729683223, 12) /\ Close(FExp(-One), 98751886, 6) /\ Close(FLn(2 * One), Ln2, 4)
         /\ Close(FLn(One \div 10), -618095480, 12) /\ Close(FSqrt(2 * One), 379625062, 4) /\ Close(Pi, 4 * PiQuarter, 2)
         /\ CosT(2, 4) = -One /\ SinT(0, 7) = 0 /\ Close(SinT(1, 3), 232471924, 4)
=============================================================================
