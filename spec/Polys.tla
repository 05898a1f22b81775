------------------------------- MODULE Polys -------------------------------
(* Polynomials with integer coefficients (ascending), Gaussian integers <<re, im>>, and factored polynomials             *)
(* [real, re, im]: the real roots, and the real and imaginary parts of one root of each conjugate pair.                 *)
EXTENDS Signals

PolyMul(p, q) == ConvSeq(p, q, 0, FullLength(Len(p), Len(q)))
PolyScale(p, c) == [k \in 1..Len(p) |-> c * p[k]]
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>

NumRoots(f) == Len(f.real) + 2 * Len(f.re)
(* The product of the factors *)
Expand(f) == LET reals == FoldLeft(LAMBDA p, r : PolyMul(p, <<-r, 1>>), <<1>>, f.real)
             IN  FoldLeft(LAMBDA p, k : PolyMul(p, <<f.re[k] * f.re[k] + f.im[k] * f.im[k], -2 * f.re[k], 1>>),
                          reals, [k \in 1..Len(f.re) |-> k])
(* Value of a polynomial at a Gaussian integer (Horner) *)
PolyAt(p, x) == FoldRight(LAMBDA c, y : CAdd(CMul(x, y), <<c, 0>>), p, <<0, 0>>)
(* Value of the product of the factors, root by root *)
FactoredAt(f, x) ==
    LET reals == FoldLeft(LAMBDA y, r : CMul(y, CAdd(x, <<-r, 0>>)), <<1, 0>>, f.real)
    IN  FoldLeft(LAMBDA y, k : CMul(CMul(y, CAdd(x, <<-f.re[k], -f.im[k]>>)), CAdd(x, <<-f.re[k], f.im[k]>>)),
                 reals, [k \in 1..Len(f.re) |-> k])
NoRoots == [real |-> <<>>, re |-> <<>>, im |-> <<>>]
=============================================================================
