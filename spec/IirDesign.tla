------------------------------ MODULE IirDesign ------------------------------
(* Recursive filters by their descriptions d: d.method, d.type, band edges d.e in parts of 64 of the Nyquist frequency,   *)
(* ripples d.pass and d.stop <<p, q>> below one.  A filter f is its zeros, poles and gain: real roots f.zr and f.pr, pairs *)
(* f.zc and f.pc by one of each <<re, im>>, gain <<m, e>> (m * 2 ^ e).  Numbers are in fixed point (Fixed.tla); logarithms *)
(* of levels are in units of 2 ^ -24.                                                                                     *)
EXTENDS Fixed
VARIABLES filter
vars == <<filter>>
Methods == {"butterworth", "chebyshev1", "chebyshev2", "elliptic"}
Types == {"lowpass", "highpass", "bandpass", "bandstop"}
Q == 64
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Total(f) == SumTo(f, Len(f))
RECURSIVE FPower(_, _)
FPower(a, k) == IF k = 0 THEN One ELSE FMul(a, FPower(a, k - 1))

(* Logarithms *)
Lb2 == 11629080                                      \* ln 2
Nothing == -2000000000                               \* ln 0
None(l) == l < -1700000000
Huge(l) == l > 1700000000
RECURSIVE L(_)
L(a) == IF a <= 0 THEN Nothing ELSE IF a < One \div 256 THEN L(256 * a) - 8 * Lb2 ELSE (FLn(a) + 8) \div 16
LF(p, q) == L(FFrac(p, q))
RECURSIVE ExpL(_)
ExpL(t) == IF t > -100000000 THEN FExp(16 * t) ELSE IF t < -400000000 THEN 0 ELSE FSq(ExpL(t \div 2))
\* ln(1 + e ^ t)
RECURSIVE Soft(_)
Soft(t) == IF t > 0 THEN t + Soft(-t) ELSE L(One + ExpL(t))

(* Levels by the theory.  The prototype's frequency x is a fraction a / b of fixed-point numbers.                          *)
LX(x) == IF x[1] = 0 THEN Nothing ELSE IF x[2] = 0 THEN -Nothing ELSE L(x[1]) - L(x[2])
RECURSIVE ChebStep(_, _, _, _)
ChebStep(x, k, a, b) == IF k = 0 THEN a ELSE ChebStep(x, k - 1, b, 2 * FMul(b, x) - a)
\* ln |T_n(x)|; outside of one by the hyperbolic functions
LCheb(n, x) ==
    IF x[1] <= x[2] THEN LET c == FDiv(x[1], x[2]) IN L(FAbs(ChebStep(c, n, One, c)))
    ELSE IF x[2] = 0 THEN -Nothing
    ELSE LET u == FDiv(x[2], x[1]) a == n * (L(One + FSqrt(One - FSq(u))) - L(u)) IN a - Lb2 + L(One + ExpL(-2 * a))
\* ln of epsilon: of the pass band, where the level is 1 - r, of the stop band, where it is r
LEpsPass(r) == LET v == FFrac(r[2] - r[1], r[2]) IN (L(One - FSq(v)) \div 2) - L(v)
LEpsStop(r) == LET v == FFrac(r[1], r[2]) IN L(v) - (L(One - FSq(v)) \div 2)
\* Elliptic rational functions by theta series of nome q, or by those of the complementary nome for large ones
Nome(n, lk1) ==
    LET k1 == ExpL(lk1)
        k1p == FSqrt(One - FSq(k1))
        lambda == 2 * lk1 - Lb2 - L(One + k1p) - 2 * L(One + FSqrt(k1p))
        m4 == FPower(ExpL(lambda), 4)
    IN (lambda + L(One + 2 * m4 + 15 * FSq(m4))) \div n
Theta(n, lk1) ==
    LET lq == Nome(n, lk1)
        q == ExpL(lq)
        s == 2 * ExpL(lq \div 4)                      \* 2 q ^ (1/4)
        p == [k \in 1..16 |-> FPower(q, k)] \o <<>>
        t2 == FMul(s, One + p[2] + p[6] + p[12])
        t3 == One + 2 * (p[1] + p[4] + p[9] + p[16])
        lc == -FDiv(FSq(Pi \div 2), -16 * lq) \div 4
        c(k) == 2 * ExpL(k * lc)
    IN IF lq < -Lb2 THEN [dual |-> FALSE, q |-> p, s |-> s, rootk |-> FDiv(t2, t3)]
       ELSE [dual |-> TRUE, lc |-> lc, rootk |-> FDiv(One - c(1) + c(4), One + c(1) + c(4))]
\* sn at a / b of K
Sn(t, a, b) ==
    LET s(j) == SinT(j * a, 4 * b)
        c(j) == CosT(j * a, 2 * b)
        t1 == FMul(t.s, s(1) - FMul(t.q[2], s(3)) + FMul(t.q[6], s(5)) - FMul(t.q[12], s(7)))
        t4 == One + 2 * (FMul(t.q[4], c(2)) + FMul(t.q[16], c(4)) - FMul(t.q[1], c(1)) - FMul(t.q[9], c(3)))
        y == -(t.lc \div b) * a
        e(j) == ExpL(j * (j + 1) * t.lc + j * y)
        f(j) == ExpL(-(2 * j + 1) * y)
        up == One - f(0) - FMul(e(1), One - f(1)) + FMul(e(2), One - f(2))
        down == One + f(0) + FMul(e(1), One + f(1)) + FMul(e(2), One + f(2))
    IN IF t.dual THEN FDiv(FDiv(up, down), t.rootk) ELSE FDiv(FDiv(t1, t4), t.rootk)
\* ln of the square of dn / cn
LQuotient(t, a, b) ==
    LET c(j) == CosT(j * a, 2 * b)
        s(j) == CosT(j * a, 4 * b)
        t3 == One + 2 * (FMul(t.q[4], c(2)) + FMul(t.q[16], c(4)) + FMul(t.q[1], c(1)) + FMul(t.q[9], c(3)))
        t2 == FMul(t.s, s(1) + FMul(t.q[2], s(3)) + FMul(t.q[6], s(5)) + FMul(t.q[12], s(7)))
        y == -(t.lc \div b) * a
        e(j) == ExpL(j * j * t.lc + j * y) + ExpL(j * j * t.lc - j * y)
    IN 2 * (L(t.rootk) + (IF t.dual THEN L(One + e(1) + e(2) + e(3)) - L(One - e(1) + e(2) - e(3)) ELSE L(t3) - L(t2)))
Apart(a, b) == IF None(a) THEN a ELSE IF None(b) THEN -Nothing ELSE a - b
\* ln |R_n(x)|
LRational(n, lk1, x) ==
    LET t == Theta(n, lk1)
        k2 == FSq(FSq(t.rootk))
        inside == x[1] <= x[2]
        v == FSq(IF inside THEN FDiv(x[1], x[2]) ELSE FDiv(x[2], x[1]))
        factor(i) == LET z == FSq(Sn(t, 2 * i - 1 + (n % 2), n))
                     IN (IF inside THEN Apart(L(FAbs(v - z)), L(One - FMul(FMul(k2, z), v))) ELSE Apart(L(One - FMul(z, v)), L(FAbs(v - FMul(k2, z)))))
        unit(i) == LQuotient(t, 2 * i - 1 + (n % 2), n)
        all == [i \in 1..(n \div 2) |-> IF None(factor(i)) \/ Huge(factor(i)) THEN factor(i) ELSE factor(i) + unit(i)] \o <<>>
    IN IF x[1] = x[2] THEN 0 ELSE IF \E i \in 1..Len(all) : None(all[i]) THEN Nothing ELSE IF \E i \in 1..Len(all) : Huge(all[i]) THEN -Nothing
       ELSE IF n % 2 = 1 THEN (IF x[1] = 0 THEN Nothing ELSE IF x[2] = 0 THEN -Nothing ELSE LX(x) + Total(all)) ELSE Total(all)
Scale(n, l) == IF None(l) \/ Huge(l) THEN l ELSE n * l
Plus(a, b) == IF None(a) \/ Huge(a) THEN a ELSE a + b
\* The level is 1 / sqrt(1 + F ^ 2); ln |F| for the prototype of order n at x
Discrimination(d, n, x) ==
    CASE d.method = "butterworth" -> Scale(n, LX(x))
      [] d.method = "chebyshev1" -> Plus(LCheb(n, x), LEpsPass(d.pass))
      [] d.method = "chebyshev2" -> -Plus(LCheb(n, <<x[2], x[1]>>), LEpsStop(d.stop))
      [] OTHER -> Plus(LRational(n, LEpsPass(d.pass) + LEpsStop(d.stop), x), LEpsPass(d.pass))
\* and of the level
Level(d, n, x) == LET t == Discrimination(d, n, x) IN IF None(t) THEN 0 ELSE IF Huge(t) THEN Nothing ELSE IF t > 400000000 THEN -t ELSE IF t < -400000000 THEN 0 ELSE -(Soft(2 * t) \div 2)
\* The prototype's frequency of p / q of the Nyquist frequency
Half(p, q) == <<SinT(p, 4 * q), CosT(p, 4 * q)>>
Proto(d, p, q) ==
    LET w == Half(p, q) a == Half(d.e[1], Q) b == Half(d.e[Len(d.e)], Q)
        x == IF Len(d.e) = 1 THEN <<FMul(w[1], a[2]), FMul(w[2], a[1])>>
             ELSE <<FAbs(FMul(FSq(w[1]), FMul(a[2], b[2])) - FMul(FSq(w[2]), FMul(a[1], b[1]))), FMul(FMul(w[1], w[2]), SinT(d.e[2] - d.e[1], 4 * Q))>>
    IN IF d.type \in {"lowpass", "bandpass"} THEN x ELSE <<x[2], x[1]>>
PrototypeOrder(d, order) == IF Len(d.e) = 1 THEN order ELSE order \div 2

(* Levels of filters *)
\* ln of the length of (x, y), and whether that is anything to speak of
RECURSIVE LNorm(_, _, _)
LNorm(x, y, k) == IF FMax(FAbs(x), FAbs(y)) < One \div 2 /\ k < 20 THEN LNorm(2 * x, 2 * y, k + 1) ELSE (L(FSq(x \div 2) + FSq(y \div 2)) \div 2) - (k - 1) * Lb2
Distances(f, z) ==                                    \* of zeros and of poles from a point, as logarithms
    LET real(r) == [i \in 1..Len(r) |-> LNorm(z[1] - r[i], z[2], 0)]
        pair(r) == [i \in 1..(2 * Len(r)) |-> LET c == r[(i + 1) \div 2] IN LNorm(z[1] - c[1], z[2] - (IF i % 2 = 1 THEN c[2] ELSE -c[2]), 0)]
    IN <<(real(f.zr) \o pair(f.zc)) \o <<>>, (real(f.pr) \o pair(f.pc)) \o <<>>>>
\* Rounding of the roots by about u units of 2 ^ -28 makes so much of a difference.
Sensitivity(dist, u) == LET one(l) == ExpL(-FMax(l, -14 * Lb2) - 14 * Lb2) \div 1024                 \* 16 / d
                            all == Total([i \in 1..Len(dist[1]) |-> one(dist[1][i])]) + Total([i \in 1..Len(dist[2]) |-> one(dist[2][i])])
                            most == 1000000000 \div u
                        IN ((IF all > most THEN most ELSE all) * u) \div 256
Gain(g) == L(g[1]) + g[2] * Lb2
\* On a zero, or next to it
Vanishing(dist, u) == LET near == FMax(-14 * Lb2, IF u < 10000 THEN L(16384 * u) - 12 * Lb2 ELSE L(4 * u)) IN \E i \in 1..Len(dist[1]) : dist[1][i] < near
LevelOf(f, dist) == Gain(f.gain) + Total(dist[1]) - Total(dist[2])
Agrees(d, f, order, p, q, base, u) ==
    LET z == <<CosT(p, 2 * q), SinT(p, 2 * q)>>
        dist == Distances(f, z)
        want == Level(d, PrototypeOrder(d, order), Proto(d, p, q))
    IN IF Vanishing(dist, u) THEN u > 10000 \/ want < -Lb2 ELSE ~None(want) /\ Close(LevelOf(f, dist), want, base + Sensitivity(dist, u))
Unit(f, tol) == (\A i \in 1..Len(f.zr) : Close(FAbs(f.zr[i]), One, tol)) /\ (\A i \in 1..Len(f.zc) : Close(FSq(f.zc[i][1]) + FSq(f.zc[i][2]), One, 2 * tol))
Stable(f) == (\A i \in 1..Len(f.pr) : FAbs(f.pr[i]) < One) /\ (\A i \in 1..Len(f.pc) : FSq(f.pc[i][1]) + FSq(f.pc[i][2]) < One)
Count(r, c) == Len(r) + 2 * Len(c)
Shape(d, order, f) == Count(f.zr, f.zc) = order /\ Count(f.pr, f.pc) = order /\ f.gain[1] > 0
Valid(d, order) == d.method \in Methods /\ d.type \in Types /\ order > 0 /\ (Len(d.e) = 2 => order % 2 = 0)

(* Actions *)
Init == filter = <<>>
\* A filter for a description: as many zeros and poles as its order, zeros on the unit circle, poles inside of it, and the
\* level at any of the frequencies, <<p, q>>.
Design(d, order, f, freqs, base, u) ==
    /\ Valid(d, order) /\ Shape(d, order, f) /\ Stable(f) /\ Unit(f, 16 * u + base)
    /\ (\A i \in 1..Len(freqs) : Agrees(d, f, order, freqs[i][1], freqs[i][2], base, u))
    /\ filter' = f
=============================================================================
