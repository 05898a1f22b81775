---------------------------- MODULE StatisticsMC ----------------------------
(* Laws of the defining formulas on all short signals. *)
EXTENDS Statistics, TLC
CONSTANTS Values, N
VARIABLE stage
Sqs == UNION {[1..m -> Values] : m \in 1..N}
MCInit == Init /\ stage = 0
MLoad == stage = 0 /\ stage' = 1 /\ \E s \in Sqs : \E t \in [1..Len(s) -> Values] : Load(Real(s), Real(t))
MLoadC == stage = 0 /\ stage' = 2 /\ \E s \in [1..2 -> Values], u, v \in [1..2 -> Values] : Load([r |-> s, i |-> u], [r |-> v, i |-> s])
MSum == stage # 0 /\ Reduced("sum", 0, Size(a), 0, SumOf(a)) /\ UNCHANGED stage
MDot == stage # 0 /\ Reduced("dot", 0, Size(a), 0, DotOf(a, b)) /\ UNCHANGED stage
MCNext == MLoad \/ MLoadC \/ MSum \/ MDot
MCSpec == MCInit /\ [][MCNext]_<<vars, stage>>
NonNeg(x) == RSign(x) >= 0
Rotated(s) == [i \in 1..Len(s) |-> s[(i % Len(s)) + 1]]
Shifted(s, c) == [i \in 1..Len(s) |-> s[i] + c]
Laws == stage = 1 => LET s == a.r t == b.r n == Len(s) IN
    /\ RSign(Central(s, 1, <<>>)) = 0 /\ NonNeg(Variance(s, <<>>))
    /\ \A k \in 2..5 : /\ REq(Central(s, k, <<>>), Central(Rotated(s), k, <<>>))
                       /\ REq(Central(s, k, <<>>), Central(ReverseSeq(s), k, <<>>))
                       /\ REq(Central(s, k, <<>>), Central(Shifted(s, 3), k, <<>>))
                       /\ REq(Central(s, k, <<2>>), Central(Shifted(s, 3), k, <<5>>))
    \* Variance is the mean square less the square of the mean; about any point it is larger.
    /\ REq(Variance(s, <<>>), RPlus(RI(Squares(s), n), RNeg(RI(SumSeq(s) * SumSeq(s), n * n))))
    /\ RLeq(Variance(s, <<>>), Variance(s, <<1>>))
    /\ REq(Cov(s, s, <<>>, <<>>), Variance(s, <<>>)) /\ REq(Cov(s, t, <<>>, <<>>), Cov(t, s, <<>>, <<>>))
    /\ RLeq(RTimes(Cov(s, t, <<>>, <<>>), Cov(s, t, <<>>, <<>>)), RTimes(Variance(s, <<>>), Variance(t, <<>>)))
    /\ MinOf(s) <= MaxOf(s) /\ \A i \in 1..n : s[i] <= MaxOf(s) /\ s[i] >= MinOf(s)
    /\ DotOf(a, b) = DotOf(b, a) /\ DotOf(a, a) = SumSquareOf(a)
    \* Kurtosis is at least the square of the skewness plus one.
    /\ RLeq(RPlus(RTimes(Central(s, 3, <<>>), Central(s, 3, <<>>)), RPower(Variance(s, <<>>), 3)), RTimes(Central(s, 4, <<>>), Variance(s, <<>>)))
LawsC == stage = 2 => DotOf(a, b)[1] = DotOf(b, a)[1] /\ DotOf(a, b)[2] = -DotOf(b, a)[2] /\ DotOf(a, a)[2] = 0 /\ DotOf(a, a)[1] >= 0
(* The corrected moments are unbiased: their mean over all samples drawn from a population is the population's moment. *)
Pop == <<0, 1, 5>>
Samples(n) == [1..n -> {0, 1, 5}]
Unbiased(n) ==
    LET ss == SetToSeq(Samples(n))
        N3 == Len(ss)
    IN
        \* The denominators are the same for all samples of a size.
        /\ REq(Rat(SumB([i \in 1..N3 |-> CVar(ss[i]).n]), TimesI(CVar(ss[1]).d, N3)), Variance(Pop, <<>>))
        /\ REq(Rat(SumB([i \in 1..N3 |-> CThird(ss[i]).n]), TimesI(CThird(ss[1]).d, N3)), Central(Pop, 3, <<>>))
        /\ \A i \in 1..N3 : CVar(ss[i]).d = CVar(ss[1]).d /\ CThird(ss[i]).d = CThird(ss[1]).d
ASSUME Unbiased(3) /\ Unbiased(4)
ValuesA == {-2, 0, 3}
ValuesB == {-3, -1, 2, 5}
=============================================================================
