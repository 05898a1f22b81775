--------------------------- MODULE DescriptionsGen ---------------------------
(* Histories of setters, also of refused ones: <<kind>>, then <<setter, precision, values...>>.                           *)
EXTENDS Descriptions, TLC, Json, Randomization
CONSTANTS Steps
VARIABLES plan, done
R(S) == RandomElement(S)
Kind6 == <<"windowed", "leastSquares", "butterworth", "chebyshev1", "chebyshev2", "elliptic">>
Type6 == <<"lowpass", "highpass", "bandpass", "bandstop", "hilbert", "arbitrary">>
Names == <<"edges", "weight", "grid", "window", "response", "passRipple", "stopRipple", "width">>
IndexOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
GInit == Init /\ plan = <<>> /\ done = FALSE
GStart == kind = <<>> /\ (\E k \in {R(Kinds)} : Start(k) /\ plan' = <<<<IndexOf(Kind6, k[1]), IndexOf(Type6, k[2])>>>>) /\ UNCHANGED done
\* Edges are in parts of 64; 999 stands for no number.
U == 15625
RECURSIVE Rise(_, _)
Rise(n, a) == IF n = 0 THEN <<>> ELSE <<a>> \o Rise(n - 1, a + R(1..(IF n > 2 THEN 9 ELSE 15)))
Wild(n) == [i \in 1..n |-> LET c == R(1..8) IN CASE c = 1 -> -1 [] c = 2 -> 65 [] c = 3 -> 999 [] c = 4 -> 0 [] c = 5 -> 64 [] OTHER -> R(0..64)]
EdgeDraw(n) == IF R(1..3) = 1 THEN Wild(n) ELSE Rise(n, R(1..30))
Draw(name) == CASE name = "edges" -> EdgeDraw(Len(set.edges)) [] name = "grid" -> <<R({0, 1, 9, 20, 33, 64})>>
                [] name = "window" -> (LET w == R(0..5) IN <<w, R({1, 2, 3})>>) [] name = "response" -> <<R(0..3)>>
                [] name = "weight" /\ kind[2] = "arbitrary" -> <<R(0..3)>> [] name = "weight" -> [i \in 1..Len(set.weight) |-> R({1, 2, 8, 16, 64, 96})]
                [] name = "width" -> <<R({1, 2, 5, 12, 30, 40})>> [] OTHER -> <<R({1, 2, 3, 6, 13, 30, 50})>>
\* What the draw stands for is up to the harness; the specification's own state is not needed further.
GPut == /\ kind # <<>> /\ Len(plan) <= Steps
        /\ \E name \in {R(DOMAIN set)} : \E p \in {R({0, 1})} : \E v \in {Draw(name)} : plan' = Append(plan, <<IndexOf(Names, name), p>> \o v)
        /\ UNCHANGED <<kind, set, done>>
GEnd == Len(plan) > Steps /\ ~done /\ done' = TRUE /\ UNCHANGED <<kind, set, plan>>
GNext == GStart \/ GPut \/ GEnd
GSpec == GInit /\ [][GNext]_<<kind, set, plan, done>>
Emit == done => PrintT("VPGEN" \o ToJson(plan))
=============================================================================
