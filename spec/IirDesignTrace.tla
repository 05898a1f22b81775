--------------------------- MODULE IirDesignTrace ---------------------------
EXTENDS IirDesign, Trace
TInit == Init /\ l = 1
Near(p) == {p - 1, p, p + 1} \cap 0..Q
Sample(d) == {4 * k : k \in 0..(Q \div 4)} \cup Near(d.e[1]) \cup Near(d.e[Len(d.e)])
RECURSIVE List(_)
List(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<<<x, Q>>>> \o List(S \ {x})
\* Elliptic designs have errors in proportion to the inverse square of the product of the ripples' epsilons.
Amplified(d) == IF d.method = "elliptic" THEN One \div FMax(ExpL(2 * (LEpsPass(d.pass) + LEpsStop(d.stop))), 1) ELSE 0
Base(d, float, order) == (IF float THEN 1500 * order ELSE IF d.method = "elliptic" THEN 180 * order ELSE 60 * order) + (IF float THEN 2 * Amplified(d) ELSE 0)
Rounding(d, float, order) == IF float THEN 24 * order + 32 * Amplified(d) ELSE IF d.method = "elliptic" THEN 80 ELSE 12
TBegin == IsOp("Begin") /\ filter' = <<>>
\* Filters of the same description are the same.
TDesign == IsOp("Design") /\ Design(E.d, E.order, E.f, List(Sample(E.d)), Base(E.d, E.float, E.order), Rounding(E.d, E.float, E.order)) /\ E.again = E.f
TRefuse == IsOp("Refuse") /\ UNCHANGED vars /\ ~Valid(E.d, E.order) /\ E.outcome \in {"abort", "throw"}
TNext == TBegin \/ TDesign \/ TRefuse
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
