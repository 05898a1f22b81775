---------------------------- MODULE EllipticTrace ----------------------------
EXTENDS Elliptic, Trace
TInit == Init /\ l = 1
Over(a) == IF a = 0 THEN 0 ELSE One \div FMax(a, One \div 1024)
\* Rounding of the modulus matters the more the closer it is to one.
Tol == LET r == Over(modulus[2]) IN IF E.float THEN 4000 + 64 * r * r ELSE 500 + 4 * r
TolC == LET r == FMax(Over(modulus[1]), Over(modulus[2])) IN IF E.float THEN 8000 + 200 * r * r ELSE 2000 + 16 * r
TBegin == IsOp("Begin") /\ modulus' = <<0, One>>
TModulus == IsOp("Modulus") /\ Modulus(E.k, E.kp, 64)
TIntegral == IsOp("Integral") /\ Integral(E.v, Tol)
TCarlson == IsOp("Carlson") /\ Carlson(E.x, E.y, E.z, E.v, IF E.float THEN 2500 ELSE 600)
TDiverges == IsOp("Diverges") /\ Diverges(E.x, E.y, E.z, E.infinite)
TEvaluate == IsOp("Evaluate") /\ Evaluate(E.u, E.j, E.v, E.a, (1 + FAbs(E.j)) * Tol)
TReciprocal == IsOp("Reciprocal") /\ Reciprocal(E.u, E.v, 2 * Tol)
TComplex == IsOp("Complex") /\ EvaluateComplex(E.x, E.y, E.v, TolC)
TReciprocalComplex == IsOp("ReciprocalComplex") /\ ReciprocalComplex(E.x, E.y, E.v, 2 * TolC)
TInvert == IsOp("Invert") /\ Invert(E.which, E.v, E.u, Tol)
TInvertComplex == IsOp("InvertComplex") /\ InvertComplex(E.which, E.v, E.u, TolC)
TNext == TBegin \/ TModulus \/ TIntegral \/ TCarlson \/ TDiverges \/ TEvaluate \/ TReciprocal \/ TComplex \/ TReciprocalComplex \/ TInvert \/ TInvertComplex
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
