----------------------------- MODULE Resampling -----------------------------
(* Resampling a stream at the ratio num / den of input to output rate by a filter of n phases, in runs.  Times are       *)
(* rationals: output sample k of a run is at position next + k, that is at (next + k) num / den input samples.           *)
EXTENDS Interpolation, Big

VARIABLES num, den,
          full,           \* the interpolated stream
          next,           \* position of the next output sample, <<p, q>>
          point           \* where to continue in samples from `first', <<p, q>>
rvars == <<vars, num, den, full, next, point>>
ZeroT == <<0, 1>>
RInit == Init /\ num = 1 /\ den = 1 /\ full = Nil /\ next = ZeroT /\ point = ZeroT
Whole(sx, sh, rate) == Interpolated(sx, sh, rate, 0, FullOf(Size(sx), Size(sh), rate))
Stream(sx, sh, rate, rn, rd, t) == Begin(sx, sh, rate) /\ num' = rn /\ den' = rd /\ full' = Whole(sx, sh, rate) /\ next' = t /\ point' = t

RECURSIVE GcdOf(_, _)
GcdOf(a, b) == IF b = 0 THEN a ELSE GcdOf(b, a % b)
\* Position t + k in units of interpolated samples: whole part, numerator and denominator of the fraction
Tick(t, k) ==
    LET p == t[1] + k * t[2]
        g == GcdOf(num * n, t[2] * den)
        a == (num * n) \div g
        b == (t[2] * den) \div g
        g2 == GcdOf(p, b)
        a2 == (p \div g2) * a
        b2 == b \div g2
    IN  [m |-> a2 \div b2, rem |-> a2 % b2, d |-> b2]
At(s, m) == IF m >= 0 /\ m < Len(s) THEN s[m + 1] ELSE 0
\* q / scale is the blend of two neighbours.
IsBlend(q, scale, s, tk) ==
    LET v == (tk.d - tk.rem) * At(s, tk.m) + tk.rem * At(s, tk.m + 1)
    IN  Abs(q) < 1000000 /\ Abs(q * tk.d - scale * v) <= 2 * tk.d
Samples(y, scale, t) ==
    /\ (IF IsReal(full) THEN y.i = <<>> ELSE Len(y.i) = Len(y.r))
    /\ \A k \in 1..Len(y.r) : LET tk == Tick(t, k - 1)
                              IN  IsBlend(y.r[k], scale, full.r, tk) /\ (IF IsReal(full) THEN TRUE ELSE IsBlend(y.i[k], scale, full.i, tk))

(* As rationals of any size *)
RI2(p, q) == Rat(BigOf(p), BigOf(q))
Q(t) == RI2(t[1], t[2])
Ratio == RI2(num, den)
FullTime == RDiv(RI2(FullOf(Size(x), Size(h), n), n), Ratio)
CentralTime == RDiv(RI2(CentralOf(Size(x), Size(h), n), n), Ratio)
CentralStart == RDiv(RI2(Min2(Size(h), Size(x) * n) - 1, n), Ratio)
IsFloor(k, t) == k >= 0 /\ RLeq(RatI(k), t) /\ ~RLeq(RatI(k + 1), t)

(* What a run over the samples before avail may give: the time up to the end of the response to them; and before the    *)
(* stream's end only what later samples have no part in. *)
Within(avail, len) ==
    /\ RLeq(RTimes(RPlus(Q(next), RatI(len)), Ratio), RPlus(RatI(avail), RI2(Size(h) - 1, n)))
    /\ (IF avail = Size(x) \/ len = 0 THEN TRUE ELSE LET tk == Tick(next, len - 1) IN tk.m + (IF tk.rem > 0 THEN 1 ELSE 0) < avail * n)
Resume(avail, y, scale, f, t) ==
    /\ first < avail /\ avail <= Size(x) /\ Size(h) > 0 /\ Within(avail, Len(y.r))
    /\ Samples(y, scale, next)
    /\ next' = <<next[1] + Len(y.r) * next[2], next[2]>>
    \* The same time, with the history the filter needs
    /\ f >= 0 /\ t[1] >= 0 /\ t[2] > 0
    /\ REq(RPlus(RDiv(RatI(f), Ratio), Q(t)), Q(next'))
    /\ (IF f = 0 THEN TRUE ELSE RLeq(RI2(Size(h) - 1, n), RTimes(Q(t), Ratio)))
    /\ first' = f /\ point' = t /\ UNCHANGED <<x, h, n, pos, start, num, den, full>>
=============================================================================
