----------------------------- MODULE Statistics -----------------------------
(* Reductions and statistics of ranges of two signals a, b of integers, which they leave alone.                         *)
EXTENDS Signals, Big

VARIABLES a, b
vars == <<a, b>>
Empty == Real(<<>>)
Init == a = Empty /\ b = Empty
Load(sa, sb) == a' = sa /\ b' = sb

InRange(s, off, n) == off >= 0 /\ n >= 0 /\ off + n <= Size(s)

(* Exact reductions of a real or complex signal *)
Squares(s) == SumSeq([i \in 1..Len(s) |-> s[i] * s[i]])
Dots(s, t) == SumSeq([i \in 1..Len(s) |-> s[i] * t[i]])
SumOf(s) == <<SumSeq(s.r), SumSeq(s.i)>>
SumSquareOf(s) == IF IsReal(s) THEN <<Squares(s.r), 0>> ELSE <<Squares(s.r) - Squares(s.i), 2 * Dots(s.r, s.i)>>
\* The second operand is conjugated.
DotOf(s, t) == <<Dots(s.r, t.r) + Dots(ImOf(s), ImOf(t)), Dots(ImOf(s), t.r) - Dots(s.r, ImOf(t))>>
MaxOf(s) == CHOOSE x \in ToSet(s) : \A y \in ToSet(s) : y <= x
MinOf(s) == CHOOSE x \in ToSet(s) : \A y \in ToSet(s) : y >= x
ExactStats == {"sum", "sumsq", "max", "min", "dot"}
ExactOf(f, s, t) == CASE f = "sum" -> SumOf(s) [] f = "sumsq" -> SumSquareOf(s) [] f = "max" -> <<MaxOf(s.r), 0>>
                      [] f = "min" -> <<MinOf(s.r), 0>> [] OTHER -> DotOf(s, t)

(* Moments of a real sequence about a rational p/d, as rationals.  Sums run over the distinct values. *)
Count(s, v) == FoldLeft(LAMBDA n, x : IF x = v THEN n + 1 ELSE n, 0, s)
SumOver(s, term(_)) == LET vals == SetToSeq(ToSet(s)) IN SumB([i \in 1..Len(vals) |-> TimesI(term(vals[i]), Count(s, vals[i]))])
Moment(s, k, p, d) == Rat(SumOver(s, LAMBDA v : Power(BigOf(d * v - p), k)), TimesI(Power(BigOf(d), k), Len(s)))
AbsMoment(s, k, p, d) == Rat(SumOver(s, LAMBDA v : Power(BigOf(Abs(d * v - p)), k)), TimesI(Power(BigOf(d), k), Len(s)))
\* The centre: an integer given as <<m>>, or the mean if it is <<>>
P(s, mu) == IF mu = <<>> THEN SumSeq(s) ELSE mu[1]
D(s, mu) == IF mu = <<>> THEN Len(s) ELSE 1
Central(s, k, mu) == Moment(s, k, P(s, mu), D(s, mu))
Variance(s, mu) == Central(s, 2, mu)
Cov(s, t, mus, mut) ==
    LET n == Len(s) ds == D(s, mus) dt == D(t, mut)
    IN  Rat(SumB([i \in 1..n |-> Times(BigOf(ds * s[i] - P(s, mus)), BigOf(dt * t[i] - P(t, mut)))]), TimesI(Times(BigOf(ds), BigOf(dt)), n))
(* Corrected ones, for n elements: variance, third and fourth moment *)
RI(p, q) == Rat(BigOf(p), BigOf(q))
CVar(s) == RTimes(RI(Len(s), Len(s) - 1), Variance(s, <<>>))
CThird(s) == LET n == Len(s) IN RTimes(RI(n * n, (n - 1) * (n - 2)), Central(s, 3, <<>>))
CFourth(s) ==
    LET n == Len(s)
        m2 == Variance(s, <<>>)
        u == n * n - 3 * n + 3
        w == 6 * n - 9
        kx == RTimes(RI(n - 1, n * n * n), RPlus(RTimes(RI(u, 1), Central(s, 4, <<>>)), RTimes(RI(w, 1), RTimes(m2, m2))))
        sx == RTimes(RI(n - 1, n), m2)
    IN  RTimes(Rat(BigOf(n * n), Times(Power(BigOf(n - 1), 3), BigOf(u))),
               RPlus(RTimes(RI(n * (n - 1) * (n - 1) + w, 1), kx), RTimes(RI(-n * w, 1), RTimes(sx, sx))))

(* An observed value q / scale *)
Tol(q, scale) == 2 + (Abs(q) \div 20000) + scale \div 20000
NearQ(q, scale, x) == NearRat(q, scale, x, Tol(q, scale))
NearSqrt(q, scale, x, sign) == NearRoot(q, scale, x, 2, sign, Tol(q, scale))
NearMoment(q, scale, s, k, mu) ==
    LET m == Central(s, k, mu)
        e == AbsMoment(s, k, P(s, mu), D(s, mu))
        diff == AbsB(Minus(TimesI(m.d, q), TimesI(m.n, scale)))
    IN  LeqB(TimesI(diff, 10000), Plus(TimesI(m.d, 20000), TimesI(e.n, scale)))
\* m_k / m_2^(k/2) from its square
NearStandard(q, scale, s, k, mu) == LET m == Central(s, k, mu) v == Variance(s, mu) IN
    v.n.mag # <<>> /\ NearSqrt(q, scale, RDiv(RTimes(m, m), RPower(v, k)), RSign(m))

PairStats == {"cov", "ccov", "corr"}
StatOf(f, s, t, k, mu, mut, q, scale) ==
    CASE f = "rms" -> NearSqrt(q, scale, RI(Squares(s), Len(s)), 1)
      [] f = "norm" -> NearSqrt(q, scale, RI(Squares(s), 1), 1)
      [] f = "moment" -> IF k = 1 THEN q = 0 ELSE NearMoment(q, scale, s, k, mu)
      [] f = "standard" -> NearStandard(q, scale, s, k, mu)
      [] f = "var" -> NearQ(q, scale, Variance(s, mu))
      [] f = "std" -> NearSqrt(q, scale, Variance(s, mu), 1)
      [] f = "skew" -> NearStandard(q, scale, s, 3, mu)
      [] f = "kurt" -> NearStandard(q, scale, s, 4, mu)
      [] f = "cvar" -> NearQ(q, scale, CVar(s))
      [] f = "cstd" -> NearSqrt(q, scale, CVar(s), 1)
      [] f = "cskew" -> LET m == CThird(s) IN NearSqrt(q, scale, RDiv(RTimes(m, m), RPower(CVar(s), 3)), RSign(m))
      [] f = "ckurt" -> NearQ(q, scale, RDiv(CFourth(s), RPower(CVar(s), 2)))
      [] f = "cov" -> NearQ(q, scale, Cov(s, t, mu, mut))
      [] f = "ccov" -> NearQ(q, scale, RTimes(RI(Len(s), Len(s) - 1), Cov(s, t, <<>>, <<>>)))
      [] f = "corr" -> LET c == Cov(s, t, <<>>, <<>>)
                       IN  NearSqrt(q, scale, RDiv(RTimes(c, c), RTimes(Variance(s, <<>>), Variance(t, <<>>))), RSign(c))
      [] OTHER -> FALSE
\* Complex or real means
MeanOf(f, s, q, qi, scale) == LET v == IF f = "mean" THEN SumOf(s) ELSE SumSquareOf(s)
    IN  IF Size(s) = 0 THEN q = 0 /\ qi = 0 ELSE NearQ(q, scale, RI(v[1], Size(s))) /\ NearQ(qi, scale, RI(v[2], Size(s)))

(* Observations *)
Reduced(f, off, n, boff, x) == InRange(a, off, n) /\ (IF f = "dot" THEN InRange(b, boff, n) ELSE TRUE)
    /\ x = ExactOf(f, Slice(a, off, n), IF f = "dot" THEN Slice(b, boff, n) ELSE Empty) /\ UNCHANGED vars
Meaned(f, off, n, q, qi, scale) == InRange(a, off, n) /\ MeanOf(f, Slice(a, off, n), q, qi, scale) /\ UNCHANGED vars
Stated(f, off, n, boff, k, mu, mut, q, scale) == InRange(a, off, n) /\ IsReal(a) /\ Abs(q) < 2000000000
    /\ (IF f \in PairStats THEN InRange(b, boff, n) /\ IsReal(b) ELSE TRUE)
    /\ StatOf(f, SliceSeq(a.r, off, n), IF f \in PairStats THEN SliceSeq(b.r, boff, n) ELSE <<>>, k, mu, mut, q, scale) /\ UNCHANGED vars
=============================================================================
