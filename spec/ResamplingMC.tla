---------------------------- MODULE ResamplingMC ---------------------------
(* All short streams cut into runs; each run is computed from the samples it may see, restarted at a suspension point,    *)
(* in units small enough to be exact. *)
EXTENDS Resampling, TLC
CONSTANTS Xs, Hs, Phases, Ratios, Starts, Lens
VARIABLES out, step
Unit == 5040
MCInit == RInit /\ out = <<>> /\ step = 0
MStream == step = 0 /\ step' = 1 /\ out' = <<>> /\ \E sx \in Xs, sh \in Hs, k \in Phases, r \in Ratios, t \in Starts : Stream(Real(sx), Real(sh), k, r[1], r[2], t)
\* A run by the definition: blends of the response to the samples first..avail, at times from `point'.
Value(s, tk) == (Unit * ((tk.d - tk.rem) * At(s, tk.m) + tk.rem * At(s, tk.m + 1))) \div tk.d
Run1(avail, len) == LET part == [r |-> SubSeq(x.r, first + 1, avail), i |-> <<>>]
                        s == Whole(part, h, n).r
                    IN  [k \in 1..len |-> Value(s, Tick(point, k - 1))]
\* The suspension point that needs the fewest samples
Norm(p, q) == LET g == GcdOf(p, q) IN <<p \div g, q \div g>>
Tight(t) ==
    LET a == t[1] * num * n - (Size(h) - 1) * t[2] * den      \* of t[2] * den * n, in input samples
        b == t[2] * den * n
    IN  IF a <= 0 THEN <<0, t>> ELSE LET f == a \div b IN <<f, Norm(t[1] * num - f * t[2] * den, t[2] * num)>>
MRun(tight) == step > 0 /\ step < 4 /\ step' = step + 1 /\ \E avail \in (first + 1)..Size(x), len \in Lens :
    /\ Within(avail, len)
    /\ LET y == Run1(avail, len)
           nx == <<next[1] + len * next[2], next[2]>>
           t == IF tight THEN Tight(nx) ELSE <<0, nx>>
       IN  Resume(avail, Real(y), Unit, t[1], t[2]) /\ out' = out \o y
MTight == MRun(TRUE)
MLoose == MRun(FALSE)
\* No such run is refused.
Accepted == step > 0 /\ step < 4 => \A avail \in (first + 1)..Size(x), len \in Lens : Within(avail, len) => Samples(Real(Run1(avail, len)), Unit, next)
MCNext == MStream \/ MTight \/ MLoose
MCSpec == MCInit /\ [][MCNext]_<<rvars, out, step>>
\* All predicted samples can be had, and at rate one the samples are the interpolated ones.
Origin == <<next[1] - Len(out) * next[2], next[2]>>
Laws == step > 0 => /\ \A k \in 1..Len(out) : out[k] = Value(full.r, Tick(Origin, k - 1))
                    /\ (num = den /\ next[2] = 1) => \A k \in 1..Len(out) : out[k] = Unit * At(full.r, (Origin[1] + k - 1) * n)
                    /\ RLeq(CentralTime, FullTime)
XsA == {<<3>>, <<1, -2>>, <<2, 5, -1>>}
HsA == {<<2>>, <<1, 3>>, <<2, 1, 3, -1>>}
RatiosA == {<<1, 1>>, <<2, 3>>, <<3, 2>>, <<1, 2>>}
StartsA == {<<0, 1>>, <<1, 2>>}
XsB == {<<3>>, <<1, -2>>, <<2, 5, -1>>, <<1, 4, -3, 2>>}
HsB == {<<2>>, <<1, 3>>, <<1, -1, 2>>, <<2, 1, 3, -1>>, <<1, 2, -3, 4, 5>>}
RatiosB == {<<1, 1>>, <<2, 3>>, <<3, 2>>, <<1, 2>>, <<2, 1>>, <<5, 4>>}
StartsB == {<<0, 1>>, <<1, 2>>, <<2, 3>>}
=============================================================================
