---------------------------- MODULE FirDesignGen ----------------------------
(* Descriptions to design one after the other: <<method, type, taps, precision, edges (4), window, its parameter (2),     *)
(* curve, curve of weights, grid, weights (5)>>                                                                           *)
EXTENDS FirDesign, TLC, Json, Randomization
CONSTANTS Steps
VARIABLES plan, done
X(S) == RandomElement(S)
Types == <<"lowpass", "highpass", "bandpass", "bandstop", "arbitrary", "hilbert">>
GInit == Init /\ plan = <<>> /\ done = FALSE
Rise(a, b, c, e) == <<a, a + b, a + b + c, a + b + c + e>>
Taps(ls, t) == IF X(1..12) = 1 THEN X({2, 4, 6, 10, 16}) ELSE IF t = 6 /\ X(1..2) = 1 THEN 2 * X(1..(IF ls THEN 8 ELSE 16))
               ELSE 2 * X(IF ls THEN 0..15 ELSE IF X(1..4) = 1 THEN 0..31 ELSE 0..12) + 1
\* Transitions without weight are no wider than the filter determines.
Weights(n, wide) == LET free == n * wide > 3 * Q IN [i \in 1..5 |-> IF i % 2 = 0 THEN X(IF free THEN {2, 8, 16, 40} ELSE {0, 0, 2, 16, 40}) ELSE X({1, 4, 16, 16, 16, 48})]
Draw(k) == LET m == X(1..2) t == X(1..6) n == Taps(m = 2, t) b == X(3..14) f == X(3..14)
            e == Rise(X(4..14), b, X(6..18), f)
        IN <<m, t, n, X(0..1)>> \o e \o (LET w == X(0..10) IN <<w>> \o X({<<1, 2>>, <<1, 1>>, <<3, 2>>, <<2, 1>>})) \o <<X(Curves), X(Curves), X({0, 0, 5, 10, 17, 20, 33, 36})>> \o Weights(n, FMax(b, f))
Cut(p) == IF p[2] <= 2 THEN (IF p[1] = 1 THEN <<IF p[11] = 1 THEN p[5] ELSE p[8]>> ELSE IF p[11] = 1 THEN <<p[5], p[6]>> ELSE <<p[7], p[8]>>) ELSE IF p[1] = 1 THEN <<p[5], p[7]>> ELSE <<p[5], p[6], p[7], p[8]>>
Desc(p) == [method |-> IF p[1] = 1 THEN "windowed" ELSE "leastSquares", type |-> Types[p[2]], e |-> Cut(p), curve |-> p[12], wcurve |-> p[13], grid |-> p[14]]
\* Half-bands have their edges at the centre, less and more a width of p[5].
Clear(p) == IF p[2] # 6 THEN Apart(Desc(p), p[3])
            ELSE p[1] = 1 \/ Apart([Desc(p) EXCEPT !.e = <<Q \div 2 - p[5], Q \div 2 + p[5]>>], IF p[3] % 2 = 1 THEN p[3] ELSE 2 * p[3] - 1)
GStep == Len(plan) < Steps /\ UNCHANGED <<mem, done>> /\ \E p \in {Draw(Len(plan))} : plan' = IF Clear(p) THEN Append(plan, p) ELSE plan
GEnd == Len(plan) = Steps /\ ~done /\ done' = TRUE /\ UNCHANGED <<mem, plan>>
GNext == GStep \/ GEnd
GSpec == GInit /\ [][GNext]_<<mem, plan, done>>
Emit == done => PrintT("VPGEN" \o ToJson(plan))
=============================================================================
