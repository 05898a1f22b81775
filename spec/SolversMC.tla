------------------------------ MODULE SolversMC ------------------------------
(* The methods, step by step, on every small polynomial: bisection keeps a root in its bracket and ends at a result that    *)
(* Bisect accepts; Newton's steps stay on their side of the roots, get shorter, and end at one that Newton accepts.          *)
EXTENDS Solvers, TLC
CONSTANTS Places, Degree, Finest
VARIABLES m
all == <<f, m>>
\* In the model, positions are in parts of 64 * 2 ^ Finest, intervals end at one part.
Fine == 2 ^ Finest
MInit == Init /\ m = [kind |-> "none", a |-> 0, b |-> 0, from |-> 0, to |-> 0]
SideFine(p) == LET s[k \in 0..Len(f.roots)] == IF k = 0 THEN f.sign ELSE s[k - 1] * (IF p > f.roots[k] * Fine THEN 1 ELSE IF p < f.roots[k] * Fine THEN -1 ELSE 0) IN s[Len(f.roots)]
MFunction == m.kind = "none" /\ \E n \in 1..Degree : \E r \in [1..n -> Places], s \in {1, -1} : (\A i \in 1..(n - 1) : r[i] <= r[i + 1]) /\ Function(r, s) /\ m' = [m EXCEPT !.kind = "function"]
MBracket == m.kind = "function" /\ UNCHANGED f /\ \E a, b \in Places : a # b /\ m' = [kind |-> "bisect", a |-> a * Fine, b |-> b * Fine, from |-> a, to |-> b]
Middle == (m.a + m.b) \div 2
MHalve == m.kind = "bisect" /\ Abs(m.b - m.a) > 1 /\ UNCHANGED f
          /\ m' = IF SideFine(m.a) * SideFine(Middle) <= 0 THEN [m EXCEPT !.b = Middle] ELSE [m EXCEPT !.a = Middle]
\* Newton's step at x is 1 / sum(1 / (x - r)): here rounded, in parts
MPoint == m.kind = "function" /\ UNCHANGED f /\ \E x \in Places : (\A r \in Roots(f) : x > r) /\ m' = [kind |-> "newton", a |-> x * Fine, b |-> 2000000000, from |-> x, to |-> x]
Scaled == 1000000
Steepness(p) == LET s[k \in 0..Len(f.roots)] == IF k = 0 THEN 0 ELSE s[k - 1] + Scaled \div (p - f.roots[k] * Fine) IN s[Len(f.roots)]
MNewton == m.kind = "newton" /\ m.b > 0 /\ UNCHANGED f
           /\ LET step == IF \E r \in Roots(f) : m.a = r * Fine THEN 0 ELSE Scaled \div Steepness(m.a)
              IN m' = [m EXCEPT !.a = m.a - step, !.b = IF step < m.b THEN step ELSE 0]
MNext == MFunction \/ MBracket \/ MHalve \/ MPoint \/ MNewton
MSpec == MInit /\ [][MNext]_all
At(p) == LET u == Unit \div Fine IN <<p * u, 0>>
Bracketed == m.kind = "bisect" /\ Bracketing(f, m.from, m.to) => SideFine(m.a) * SideFine(m.b) <= 0
Found == m.kind = "bisect" /\ Abs(m.b - m.a) <= 1 => ENABLED Bisect(m.from, m.to, <<Unit \div Fine, 0>>, At(Middle), <<0, 0>>)
OneSide == m.kind = "newton" => m.a >= Largest(Roots(f)) * Fine
Solved == m.kind = "newton" /\ m.b = 0 => ENABLED Newton(m.from, <<Unit \div Fine, 0>>, At(m.a), <<2 * Len(f.roots) * (Unit \div Fine), 0>>)
\* What is accepted is near a root; nothing is, between distant roots.
Discriminates == m.kind = "function" => \A q \in Places : q \notin Roots(f) /\ (\A r \in Roots(f) : Abs(r - q) > 1) => \A a, b \in Places : Bracketing(f, a, b) => ~ENABLED Bisect(a, b, <<Unit \div 4, 0>>, <<q * Unit, 0>>, <<0, 0>>)
=============================================================================
