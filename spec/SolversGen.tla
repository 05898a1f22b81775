----------------------------- MODULE SolversGen -----------------------------
(* Functions and calls: <<1, sign, scale 2 ^ e, roots>>, <<2, a, b, t>> bisection of a / 64 to b / 64 with tolerance 2 ^ -t  *)
(* or none for t = 0, <<3, x, side, t>> Newton's method from x / 64 beyond the last root, or before the first.                *)
EXTENDS Solvers, TLC, Json, Randomization
CONSTANTS Steps
VARIABLES plan, done
X(S) == RandomElement(S)
GInit == Init /\ plan = <<>> /\ done = FALSE
\* Roots apart, close or repeated
RECURSIVE Draws(_, _)
Draws(n, r) == IF n = 0 THEN r ELSE Draws(n - 1, Append(r, IF r = <<>> \/ X(1..3) > 1 THEN X(-200..200) ELSE X({-1, 0, 1}) + r[Len(r)]))
Places(n) == X(-220..220)
Draw(n) == LET op == IF n % 6 = 0 THEN 1 ELSE X({2, 2, 2, 3}) IN
    CASE op = 1 -> <<1, X({-1, 1}), X({0} \cup {-60, -50, -30, 30, 60}), X(-60..60)>>
      [] op = 2 -> <<2, Places(n), Places(n), X({0, 0} \cup 4..22)>>
      [] OTHER -> <<3, X({0} \cup {1, 2} \cup 1..200), X({-1, 1}), X({0} \cup 4..20)>>
Complete(p, n) == IF p[1] = 1 THEN Draws(X(1..5), <<>>) ELSE <<>>
\* The last bracket sometimes ends at a root.
GStep == Len(plan) < Steps /\ UNCHANGED <<f, done>> /\ \E p \in {Draw(Len(plan))} : \E r \in {Complete(p, Len(plan))} :
         plan' = Append(plan, IF p[1] = 1 THEN <<1, p[2], IF X(1..3) = 1 THEN p[3] ELSE p[4]>> \o r
                              ELSE IF p[1] = 2 /\ X(1..4) = 1 THEN LET g == plan[Len(plan) - (Len(plan) % 6) + 1] IN (IF X(1..2) = 1 THEN <<2, g[4], p[3], p[4]>> ELSE <<2, p[2], g[4], p[4]>>)
                              ELSE p)
GEnd == Len(plan) = Steps /\ ~done /\ done' = TRUE /\ UNCHANGED <<f, plan>>
GNext == GStep \/ GEnd
GSpec == GInit /\ [][GNext]_<<f, plan, done>>
Emit == done => PrintT("VPGEN" \o ToJson(plan))
=============================================================================
