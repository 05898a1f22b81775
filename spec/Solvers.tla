------------------------------- MODULE Solvers -------------------------------
(* Root finders on scaled polynomials with real roots.  The state is the function: its roots, in parts of 64, and the sign  *)
(* of its leading coefficient.  Points are <<hi, lo>>, the value hi * 2 ^ -24 + lo * 2 ^ -48.                               *)
EXTENDS Integers, Sequences
VARIABLES f
vars == <<f>>
Unit == 262144                                        \* 1 / 64
Abs(a) == IF a < 0 THEN -a ELSE a
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
\* The sign of the function at q / 64
RECURSIVE Side(_, _, _)
Side(r, q, k) == IF k = 0 THEN 1 ELSE (IF q > r[k] THEN 1 ELSE IF q < r[k] THEN -1 ELSE 0) * Side(r, q, k - 1)
Sign(g, q) == g.sign * Side(g.roots, q, Len(g.roots))
Roots(g) == {g.roots[i] : i \in 1..Len(g.roots)}
Largest(S) == CHOOSE s \in S : \A t \in S : t <= s
Smallest(S) == CHOOSE s \in S : \A t \in S : t >= s
\* At most <<hi, lo>> apart
Within(v, r, tol) == LET h == Abs(v[1] - r * Unit)
                         l == IF v[1] > r * Unit THEN v[2] ELSE IF v[1] < r * Unit THEN -v[2] ELSE Abs(v[2])
                     IN h < tol[1] \/ (h = tol[1] /\ l <= tol[2])
\* Points between a and b, in parts of 64, up to tol
Between(v, a, b, tol) == Within(v, a, tol) \/ Within(v, b, tol) \/ (Min(a, b) * Unit <= v[1] /\ v[1] < Max(a, b) * Unit)
Bracketing(g, a, b) == Sign(g, a) * Sign(g, b) <= 0
Convex(g, x) == x >= Largest(Roots(g)) \/ x <= Smallest(Roots(g))
Times(tol, n) == <<n * tol[1] + (n * (tol[2] \div 4096)) \div 4096, (n * (tol[2] % 4096)) + 4096 * ((n * (tol[2] \div 4096)) % 4096)>>
Plus(t, s) == <<t[1] + s[1], t[2] + s[2]>>

(* Actions *)
Init == f = [roots |-> <<0>>, sign |-> 1]
Function(roots, sign) == Len(roots) > 0 /\ sign \in {1, -1} /\ f' = [roots |-> roots, sign |-> sign]
\* A root between a and b, whichever of them is less, when the signs there differ; some point of theirs in any case.
Bisect(a, b, tol, v, slack) ==
    /\ Between(v, a, b, slack)
    /\ (Bracketing(f, a, b) => \E r \in Roots(f) : Min(a, b) <= r /\ r <= Max(a, b) /\ Within(v, r, Plus(tol, slack)))
    /\ UNCHANGED vars
\* The nearest root from beyond all of them.  A step is at least the distance divided by the degree.
Newton(x, tol, v, slack) ==
    /\ Convex(f, x)
    /\ Within(v, IF x >= Largest(Roots(f)) THEN Largest(Roots(f)) ELSE Smallest(Roots(f)), Plus(Times(tol, Len(f.roots)), slack))
    /\ UNCHANGED vars
=============================================================================
