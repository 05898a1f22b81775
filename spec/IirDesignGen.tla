---------------------------- MODULE IirDesignGen ----------------------------
(* Descriptions to design one after the other: <<method, type, order, precision, edges (2), pass ripple, stop ripple>>,   *)
(* edges and ripples in parts of 64.                                                                                      *)
EXTENDS IirDesign, TLC, Json, Randomization
CONSTANTS Steps, MaxOrder
VARIABLES plan, done
X(S) == RandomElement(S)
GInit == Init /\ plan = <<>> /\ done = FALSE
Order(t) == IF t > 2 /\ X(1..12) > 1 THEN 2 * X(1..(MaxOrder \div 2)) ELSE X(1..MaxOrder)
\* Elliptic filters of high orders for large ripples have zeros too close to their edges for the arithmetic here.
Draw(k) == LET t == X(1..4) lo == X(4..50) m == X(1..4) o == Order(t)
               r == IF m = 4 /\ (IF t < 3 THEN o > 6 ELSE o > 12) THEN {1, 2, 3, 6} ELSE {1, 2, 3, 6, 10, 16}
           IN <<m, t, o, X(0..1), lo, X((lo + 4)..60), X(r), X(r)>>
GStep == Len(plan) < Steps /\ UNCHANGED <<filter, done>> /\ \E p \in {Draw(Len(plan))} : plan' = Append(plan, p)
GEnd == Len(plan) = Steps /\ ~done /\ done' = TRUE /\ UNCHANGED <<filter, plan>>
GNext == GStep \/ GEnd
GSpec == GInit /\ [][GNext]_<<filter, plan, done>>
Emit == done => PrintT("VPGEN" \o ToJson(plan))
=============================================================================
