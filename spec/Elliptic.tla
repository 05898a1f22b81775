------------------------------- MODULE Elliptic -------------------------------
(* Elliptic integrals and Jacobi's elliptic functions, real and complex, by Gauss' transformation and duplication, in     *)
(* fixed point (Fixed.tla).  The state is the modulus: <<k, k'>>, k in [0, 1].                                             *)
EXTENDS Fixed
VARIABLES modulus
vars == <<modulus>>
HalfPi == 421657428
\* Square roots, of small numbers too
RECURSIVE Root(_)
Root(a) == IF a = 0 THEN 0 ELSE IF a < One \div 256 THEN (Root(256 * a) + 8) \div 16 ELSE FSqrt(a)
\* Sine and cosine of any angle below eight in magnitude
Turned(n, s, c) == CASE n % 4 = 0 -> <<s, c>> [] n % 4 = 1 -> <<c, -s>> [] n % 4 = 2 -> <<-s, -c>> [] OTHER -> <<-c, s>>
SinCos(u) == LET n == IF u >= 0 THEN (u \div 2 + PiQuarter \div 2) \div PiQuarter ELSE -((PiQuarter \div 2 - (u \div 2)) \div PiQuarter)
                 r == u - n * HalfPi
             IN IF r < 0 THEN Turned(n, -SinSmall(-r), CosSmall(-r)) ELSE Turned(n, SinSmall(r), CosSmall(r))

\* The complete integral by the arithmetic-geometric mean, for 0 < k'
RECURSIVE AGM(_, _, _)
AGM(a, b, n) == IF n = 0 \/ FAbs(a - b) <= 2 THEN a ELSE AGM((a + b) \div 2, Root(FMul(a, b)), n - 1)
Complete(kp) == FDiv(HalfPi, AGM(One, kp, 12))
\* Carlson's integral by duplication, for arguments below four, one of them zero at most
RECURSIVE RFStep(_, _, _, _)
RFStep(x, y, z, n) ==
    IF n = 0 THEN FDiv(One, Root(x \div 3 + y \div 3 + z \div 3))
    ELSE LET a == Root(x) b == Root(y) c == Root(z)
             t == FMul(a \div 2, b \div 2) + FMul(a \div 2, c \div 2) + FMul(b \div 2, c \div 2)          \* a quarter
         IN RFStep((x + 2) \div 4 + t, (y + 2) \div 4 + t, (z + 2) \div 4 + t, n - 1)
RF(x, y, z) == RFStep(x, y, z, 9)

\* sn, cn, dn at u by Gauss' transformation to smaller moduli
RECURSIVE Jacobi(_, _)
Jacobi(u, kp) ==
    IF kp >= One - 1 THEN <<SinCos(u)[1], SinCos(u)[2], One>>
    ELSE LET k1 == FDiv(One - kp, One + kp)
             k1p == FDiv(2 * Root(kp), One + kp)
             j == Jacobi(FDiv(u \div 2, (One + k1) \div 2), k1p)
             t == FMul(k1, FSq(j[1]))
         IN <<FDiv(FMul(One + k1, j[1]), One + t), FDiv(FMul(j[2], j[3]), One + t), FDiv(One - t, One + t)>>
\* Hyperbolic functions for k = 1
Tanh(u) == LET e == FSq(FExp(-FAbs(u))) t == FDiv(One - e, One + e) IN IF u < 0 THEN -t ELSE t
Sech(u) == LET e == FExp(-FAbs(u)) IN FDiv(2 * e, One + FSq(e))
SnCnDn(u, m) == IF m[2] = 0 THEN <<Tanh(u), Sech(u), Sech(u)>> ELSE Jacobi(u, m[2])
\* Complex values are <<re, im>>.  The denominator and the three numerators at x + iy
Denominator(s, t, k) == FSq(t[2]) + FMul(FSq(k), FMul(FSq(s[1]), FSq(t[1])))
Numerators(s, t, k) == <<<<FMul(s[1], t[3]), FMul(FMul(s[2], s[3]), FMul(t[1], t[2]))>>,
                         <<FMul(s[2], t[2]), -FMul(FMul(s[1], s[3]), FMul(t[1], t[3]))>>,
                         <<FMul(s[3], FMul(t[2], t[3])), -FMul(FSq(k), FMul(s[1], FMul(s[2], t[1])))>>>>
Swap(m) == <<m[2], m[1]>>
Known(s, t, k) == Denominator(s, t, k) >= One \div 3
ComplexOf(s, t, k) == LET d == Denominator(s, t, k) n == Numerators(s, t, k)
                      IN <<<<FDiv(n[1][1], d), FDiv(n[1][2], d)>>, <<FDiv(n[2][1], d), FDiv(n[2][2], d)>>, <<FDiv(n[3][1], d), FDiv(n[3][2], d)>>>>

(* Values that are right within tol *)
Alike(v, w, tol) == Len(v) = Len(w) /\ \A i \in 1..Len(v) : Close(v[i], w[i], tol)
Alike2(v, w, tol) == Len(v) = Len(w) /\ \A i \in 1..Len(v) : Alike(v[i], w[i], tol)
\* Shifted by j half periods
Half(v, j) == IF j % 2 = 0 THEN v ELSE <<-v[1], -v[2], v[3]>>
\* The amplitude a, less j * pi, has the sine and cosine of the others, and is within a quarter turn of its mean.
Amplitude(a, u, m, tol) == LET s == SinCos(a) v == SnCnDn(u, m)
                           IN /\ Close(s[1], v[1], tol) /\ Close(s[2], v[2], tol)
                              /\ IF m[2] = 0 THEN FAbs(a) <= HalfPi + tol ELSE Close(a \div 2, FMul(u \div 4, FDiv(HalfPi \div 2, Complete(m[2]) \div 4)), HalfPi \div 2 + tol)

(* Actions *)
Init == modulus = <<0, One>>
Modulus(k, kp, tol) == 0 <= k /\ k <= One /\ 0 <= kp /\ kp <= One /\ Close(FSq(k) + FSq(kp), One, tol) /\ modulus' = <<k, kp>>
Integral(v, tol) == modulus[2] > 0 /\ Close(v, Complete(modulus[2]), tol) /\ UNCHANGED vars
Carlson(x, y, z, v, tol) == Close(v, RF(x, y, z), tol) /\ UNCHANGED vars
\* It is infinite where two arguments vanish.
Diverges(x, y, z, infinite) == infinite = ((x = 0 /\ y = 0) \/ (x = 0 /\ z = 0) \/ (y = 0 /\ z = 0)) /\ UNCHANGED vars
\* Values at u + 2 j K, where j = 0 for k = 1
Evaluate(u, j, v, a, tol) == /\ (modulus[2] = 0 => j = 0)
                             /\ Alike(v, Half(SnCnDn(u, modulus), j), tol)
                             /\ Amplitude(a, u, modulus, tol)
                             /\ UNCHANGED vars
\* For the reciprocal modulus 1 / k: sn(k u, 1 / k) = k sn(u, k), and cn and dn change places.
Reciprocal(u, v, tol) == LET w == SnCnDn(u, modulus) IN Alike(v, <<FMul(modulus[1], w[1]), w[3], w[2]>>, tol) /\ UNCHANGED vars
\* at x + iy
EvaluateComplex(x, y, v, tol) == LET s == SnCnDn(x, modulus) t == SnCnDn(y, Swap(modulus))
                                 IN /\ (Known(s, t, modulus[1]) => Alike2(v, ComplexOf(s, t, modulus[1]), tol))
                                    /\ UNCHANGED vars
ReciprocalComplex(x, y, v, tol) == LET s == SnCnDn(x, modulus) t == SnCnDn(y, Swap(modulus)) k == modulus[1]
                                       w == ComplexOf(s, t, k)
                                   IN /\ (Known(s, t, k) => Alike2(v, <<<<FMul(k, w[1][1]), FMul(k, w[1][2])>>, w[3], w[2]>>, tol))
                                      /\ UNCHANGED vars
\* The inverse functions: principal values
Principal(which, u, tol) == LET c == Complete(modulus[2]) IN
    CASE which = 1 -> FAbs(u) <= c + tol
      [] which = 2 -> -tol <= u /\ u \div 2 <= c + tol
      [] OTHER -> -tol <= u /\ u <= c + tol
Invert(which, v, u, tol) == modulus[2] > 0 /\ Close(SnCnDn(u, modulus)[which], v, tol) /\ Principal(which, u, tol) /\ UNCHANGED vars
InvertComplex(which, v, u, tol) == LET s == SnCnDn(u[1], modulus) t == SnCnDn(u[2], Swap(modulus))
                                   IN /\ modulus[1] > 0 /\ modulus[2] > 0
                                      /\ (Known(s, t, modulus[1]) => Alike(ComplexOf(s, t, modulus[1])[which], v, tol))
                                      /\ (which = 1 => Principal(1, u[1], tol))
                                      /\ (which # 3 => FAbs(u[2]) <= Complete(modulus[1]) + tol)
                                      /\ UNCHANGED vars
=============================================================================
