---------------------------- MODULE LinearSystems ----------------------------
(* Linear systems given by gain, zeros and poles, and what is made of them: other representations of the same rational  *)
(* function, and substitutions of its argument (discretisation, band transforms).                                       *)
EXTENDS Polys

VARIABLES base,      \* the system that was defined: [gain, zeros, poles, kind]
          sub,       \* what its argument was replaced by: the fraction sub.u / sub.v of two polynomials
          kind       \* "continuous" or "discrete"
vars == <<base, sub, kind>>

Identity == [u |-> <<0, 1>>, v |-> <<1>>]
Trivial == [gain |-> 0, zeros |-> NoRoots, poles |-> NoRoots]
Init == base = Trivial /\ sub = Identity /\ kind = "discrete"
Define(g, z, p, k) == base' = [gain |-> g, zeros |-> z, poles |-> p] /\ sub' = Identity /\ kind' = k

Degree(m) == Max2(Len(m.u), Len(m.v)) - 1
MaxRoots == Max2(NumRoots(base.zeros), NumRoots(base.poles))
(* Zeros and poles of the system after the substitutions: both counts grow to the larger one, as infinity becomes finite. *)
ZeroCount == IF sub = Identity THEN NumRoots(base.zeros) ELSE MaxRoots * Degree(sub)
PoleCount == IF sub = Identity THEN NumRoots(base.poles) ELSE MaxRoots * Degree(sub)

(* Polynomial p at the fraction f.u / f.v, times f.v to the n-th power *)
RECURSIVE PolyPow(_, _)
PolyPow(p, n) == IF n = 0 THEN <<1>> ELSE PolyMul(p, PolyPow(p, n - 1))
PolyAdd(p, q) == [k \in 1..Max2(Len(p), Len(q)) |-> (IF k <= Len(p) THEN p[k] ELSE 0) + (IF k <= Len(q) THEN q[k] ELSE 0)]
Homogeneous(p, f, n) ==
    LET term(k) == PolyScale(PolyMul(PolyPow(f.u, k - 1), PolyPow(f.v, n + 1 - k)), p[k])
    IN  FoldLeft(LAMBDA acc, k : PolyAdd(acc, term(k)), <<0>>, [k \in 1..Len(p) |-> k])
Compose(m, f) == LET n == Degree(m) IN [u |-> Homogeneous(m.u, f, n), v |-> Homogeneous(m.v, f, n)]

(* s = k (z - 1) / (z + 1) *)
BilinearMap(k) == [u |-> <<-k, k>>, v |-> <<1, 1>>]
Bilinear(k) == kind = "continuous" /\ sub' = Compose(sub, BilinearMap(k)) /\ kind' = "discrete" /\ UNCHANGED base

RECURSIVE GcdN(_, _)
GcdN(a, b) == IF b = 0 THEN a ELSE GcdN(b, a % b)
Gcd(a, b) == GcdN(Abs(a), Abs(b))

(* Band transforms of half-band systems.  Angles are given by integers: cos = c / m, sin = s / m. *)
Reduced(u, v) == LET g == FoldLeft(LAMBDA a, b : Gcd(a, b), 0, u \o v)
                 IN  [u |-> [k \in 1..Len(u) |-> u[k] \div g], v |-> [k \in 1..Len(v) |-> v[k] \div g]]
LowMap(c, s, m) == Reduced(<<-c, m + s>>, <<m + s, -c>>)
HighMap(c, s, m) == Reduced(<<c, -(m + s)>>, <<m + s, -c>>)
(* Both from t = tn / td = tan((w2 - w1) / 2) and a = an / ad = cos((w1 + w2) / 2) / cos((w2 - w1) / 2), w1 < w2:       *)
(* z is replaced by -(or +) ((1 + t) z^2 - 2 a z + (1 - t)) / ((1 - t) z^2 - 2 a z + (1 + t)).                           *)
BandMap(pass, c1, s1, c2, s2, m) ==
    LET tn == s2 * c1 - c2 * s1
        td == m * m + c1 * c2 + s1 * s2
        an == s1 * c2 + c1 * s2
        ad == m * (s1 + s2)
        hi == ad * (td + tn)
        mid == -2 * an * td
        lo == ad * (td - tn)
    IN  IF pass THEN Reduced(<<-lo, -mid, -hi>>, <<hi, mid, lo>>) ELSE Reduced(<<lo, mid, hi>>, <<hi, mid, lo>>)
TransformBand(f) == kind = "discrete" /\ sub' = Compose(sub, f) /\ UNCHANGED <<base, kind>>

----------------------------------------------------------------------------
(* The value at a Gaussian integer as a fraction of Gaussian integers *)
RECURSIVE CPow(_, _)
CPow(x, n) == IF n = 0 THEN <<1, 0>> ELSE CMul(x, CPow(x, n - 1))
CScale(c, x) == <<c * x[1], c * x[2]>>
RootsAt(f, u, v) ==      \* the product of u - r v
    LET reals == FoldLeft(LAMBDA y, r : CMul(y, CAdd(u, CScale(-r, v))), <<1, 0>>, f.real)
    IN  FoldLeft(LAMBDA y, k : CMul(CMul(y, CAdd(u, CMul(<<-f.re[k], -f.im[k]>>, v))), CAdd(u, CMul(<<-f.re[k], f.im[k]>>, v))),
                 reals, [k \in 1..Len(f.re) |-> k])
ValueAt(z) ==
    LET u == PolyAt(sub.u, z)
        v == PolyAt(sub.v, z)
        nz == NumRoots(base.zeros)
        np == NumRoots(base.poles)
        n == CScale(base.gain, RootsAt(base.zeros, u, v))
        d == RootsAt(base.poles, u, v)
    IN  IF np >= nz THEN [n |-> CMul(n, CPow(v, np - nz)), d |-> d] ELSE [n |-> n, d |-> CMul(d, CPow(v, nz - np))]

Transfer == [num |-> PolyScale(Expand(base.zeros), base.gain), den |-> Expand(base.poles)]

(* A second-order section is a numerator of the given order and a monic denominator; unused low entries are zero. *)
SectionNum(s) == IF s.no = 0 THEN <<s.n[1] + s.n[3]>> ELSE IF s.no = 1 THEN <<s.n[1] + s.n[2], s.n[3]>> ELSE s.n
SectionDen(s) == IF s.do = 0 THEN <<s.d[1] + 1>> ELSE IF s.do = 1 THEN <<s.d[1] + s.d[2], 1>> ELSE s.d \o <<1>>
Cascade(ss) == [num |-> FoldLeft(LAMBDA p, s : PolyMul(p, SectionNum(s)), <<1>>, ss),
                den |-> FoldLeft(LAMBDA p, s : PolyMul(p, SectionDen(s)), <<1>>, ss)]

(* Sections whose product has coefficients of moderate size (recorded data may be anything) *)
NormSeq(s) == FoldLeft(LAMBDA a, b : Min2(10000, a + Min2(10000, Abs(b))), 1, s)
Moderate(ss) == FoldLeft(LAMBDA a, s : Min2(100000000, Min2(100000, a) * Max2(NormSeq(s.n), NormSeq(s.d))), 1, ss) < 100000000

(* v / scale is the value at z, up to rounding of v and of single precision evaluation *)
CNorm(x) == Abs(x[1]) + Abs(x[2])
IsValue(v, scale, z) ==
    LET q == ValueAt(z)
        w == CMul(v, q.d)
        tol == CNorm(q.d) + (scale * (1 + CNorm(q.n) \div 20)) \div 50
    IN  /\ Abs(v[1]) <= 1000000000 \div (1 + CNorm(q.d))
        /\ Abs(v[2]) <= 1000000000 \div (1 + CNorm(q.d))
        /\ Abs(w[1] - scale * q.n[1]) <= tol
        /\ Abs(w[2] - scale * q.n[2]) <= tol
=============================================================================
