------------------------------- MODULE Windows -------------------------------
(* Window functions of n points, and a memory that windows are generated into.  Values are fixed-point numbers.         *)
EXTENDS Fixed
Kinds == {"rectangular", "triangular", "hamming", "blackman", "blackmanHarris", "flattop", "lanczos", "gaussian", "kaiser", "dolphChebyshev"}
Param == {"gaussian", "kaiser", "dolphChebyshev"}          \* Kinds with a parameter, a fraction <<p, q>>
VARIABLES mem
vars == <<mem>>

(* Point k in 0..n-1 for n > 1; the angle runs over one turn. *)
C(m, k, n) == CosT(m * k, n - 1)
Hamming(k, n) == 144955146 - FMul(123480310, C(1, k, n))
Blackman(k, n) == 112742892 - FMul(134217728, C(1, k, n)) + FMul(21474836, C(2, k, n))
BlackmanHarris(k, n) == 96301220 - FMul(131074349, C(1, k, n)) + FMul(37924561, C(2, k, n)) - FMul(3135326, C(3, k, n))
FlatTop(k, n) == 57869034 - FMul(111838688, C(1, k, n)) + FMul(74427262, C(2, k, n)) - FMul(22435553, C(3, k, n)) + FMul(1864920, C(4, k, n))
Triangular(k, n) == One - FFrac(FAbs(2 * k - (n - 1)), n - 1)
\* sin x / x where x runs from -pi to pi
Lanczos(k, n) == LET p == FAbs(2 * k - (n - 1)) x == FMul(Pi, FFrac(p, n - 1)) IN IF 4 * p <= n - 1 THEN SincSmall(x) ELSE FDiv(SinT(p, 2 * (n - 1)), x)
\* Exponential of -1/2 (x / sigma)^2 where x runs from -1 to 1
Gaussian(k, n, s) == LET x == FFrac(s[2] * FAbs(2 * k - (n - 1)), s[1] * (n - 1)) IN FExp(-FMul(x, x \div 2))
\* Modified Bessel function of order zero of 2 sqrt(16 y), 16 y <= 22, in units of 1 / u
RECURSIVE BesselTerms(_, _, _)
BesselTerms(t, y, k) == IF k > 30 THEN 0 ELSE t + BesselTerms(FMul(t, (y \div ((k + 1) * (k + 1))) * 16), y, k + 1)
Bessel0(y, u) == u + BesselTerms(y \div (16777216 \div u), y, 1)
\* I0(pi alpha sqrt(1 - x^2)) / I0(pi alpha), alpha <= 5/2
Kaiser(k, n, a) == LET x == FFrac(FAbs(2 * k - (n - 1)), n - 1) z == FMul(Pi \div 8, FFrac(a[1], a[2])) y == FMul(z, z)
                       u == IF y < 107374182 THEN 16777216 ELSE 1048576
                   IN FDiv(Bessel0(FMul(y, One - FMul(x, x)), u), Bessel0(y, u))
\* Chebyshev polynomial of degree m in units of 2 ^ -20
RECURSIVE Cheb(_, _, _, _)
Cheb(x, k, a, b) == IF k = 0 THEN a ELSE Cheb(x, k - 1, b, 2 * FMul(b, x) - a)
ChebT(m, x) == Cheb(x, m, 1048576, x \div 256)
\* Whether T_m(x) <= c for x >= 1, where T_k grows with k
RECURSIVE ChebLeq(_, _, _, _, _)
ChebLeq(x, k, a, b, c) == IF a > c THEN FALSE ELSE IF k = 0 THEN TRUE ELSE IF b > c THEN FALSE ELSE ChebLeq(x, k - 1, b, 2 * FMul(b, x) - a, c)
\* Largest x < 4 with T_m(x) <= c
RECURSIVE ChebArg(_, _, _, _)
ChebArg(m, c, x, k) == IF k < 0 THEN x ELSE LET t == x + (2 ^ k) IN ChebArg(m, c, IF t <= FourLess /\ ChebLeq(t, m, 1048576, t \div 256, c) THEN t ELSE x, k - 1)
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
\* The window whose transform is T_(n-1)(b cos(w / 2)), side lobes attenuated by p / q <= 1, for n > 3; its peak is one.
Dolph(n, a) ==
    LET m == n - 1
        b == ChebArg(m, (1048576 \div a[1]) * a[2], One, 28)
        amp == [k \in 0..(n \div 2) |-> ChebT(m, FMul(b, CosT(k, 2 * n)))]
        \* Term k of point j; the transform is that of a real signal.
        term(j, k) == (IF 2 * k = n THEN 1 ELSE 2) * FMul(amp[k], CosT(k * (2 * j - m), 2 * n))
        raw == [j \in 0..m |-> amp[0] + SumTo([k \in 1..(n \div 2) |-> term(j, k)], n \div 2)]
        peak == CHOOSE v \in {FAbs(raw[j]) : j \in 0..m} : \A j \in 0..m : FAbs(raw[j]) <= v
    IN [j \in 1..n |-> FDiv(raw[j - 1] \div 16, peak \div 16)]
Dolph3(a) == LET e == FFrac(a[2] + a[1], 2 * (a[2] - a[1])) IN IF e <= One THEN <<e, One, e>> ELSE <<One, FDiv(One, e), One>>
Point(kind, k, n, a) == CASE kind = "rectangular" -> One [] kind = "triangular" -> Triangular(k, n) [] kind = "hamming" -> Hamming(k, n)
    [] kind = "blackman" -> Blackman(k, n) [] kind = "blackmanHarris" -> BlackmanHarris(k, n) [] kind = "flattop" -> FlatTop(k, n)
    [] kind = "lanczos" -> Lanczos(k, n) [] kind = "gaussian" -> Gaussian(k, n, a) [] OTHER -> Kaiser(k, n, a)
Window(kind, n, a) ==
    IF n = 1 THEN <<One>>
    ELSE IF kind # "dolphChebyshev" THEN [k \in 1..n |-> Point(kind, k - 1, n, a)]
    ELSE IF n = 2 THEN <<One, One>> ELSE IF n = 3 THEN Dolph3(a) ELSE Dolph(n, a)

(* Actions *)
Init == mem = <<>>
Reserve(size, v) == mem' = [k \in 1..size |-> v]
\* The n cells after the first off become a window.
Generate(kind, off, n, a) == LET w == Window(kind, n, a) IN mem' = [k \in 1..Len(mem) |-> IF k > off /\ k <= off + n THEN w[k - off] ELSE mem[k]]

(* Sums of signals with integer or fixed-point values; gains are these per point. *)
RECURSIVE Total(_, _)
Total(s, k) == IF k = 0 THEN 0 ELSE s[k] + Total(s, k - 1)
=============================================================================
