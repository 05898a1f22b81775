----------------------------- MODULE EllipticGen -----------------------------
(* Moduli and calls: <<operation, four parameters, form>>.  1 modulus <<1, kind, i>>; 2 complete integral; 3 Carlson's        *)
(* integral at x, y, z in sixteenths, scaled by 4 ^ e; 4 functions at u / 64 + 2 j K; 5 for the reciprocal modulus at u / 64; *)
(* 6 at (x + iy) / 64; 7 inverse function w of v / 64; 8 of the complex (x + iy) / 64.                                        *)
EXTENDS Elliptic, TLC, Json, Randomization
CONSTANTS Steps
VARIABLES plan, done
X(S) == RandomElement(S)
GInit == Init /\ plan = <<>> /\ done = FALSE
Often0(n) == IF X(1..5) = 1 THEN 0 ELSE X(0..63)
Draw(n) == LET op == IF n % 10 = 0 THEN 1 ELSE X(2..8) IN
    CASE op = 1 -> <<1, X(0..4), X(1..63), 0, 0, 0>>
      [] op = 2 -> <<2, 0, 0, 0, 0, X(0..1)>>
      [] op = 3 -> <<3, Often0(n), Often0(n), Often0(n), X(-12..12), X(0..2)>>
      [] op = 4 -> <<4, X(-440..440), X({0, 1, 2, 3, 4, -1, -2, -3}), 0, 0, X(0..2)>>
      [] op = 5 -> <<5, X(-440..440), 0, 0, 0, X(0..1)>>
      [] op = 6 -> <<6, X(-440..440), X(-100..100), 0, 0, X(0..2)>>
      [] op = 7 -> <<7, X(1..3), X({-64, 0, 64} \cup -63..63), 0, 0, X(0..1)>>
      [] OTHER -> <<8, X(1..3), X({0} \cup {9 * i : i \in -10..10} \cup -96..96), X(-96..96), 0, X(0..1)>>
GStep == Len(plan) < Steps /\ UNCHANGED <<modulus, done>> /\ \E p \in {Draw(Len(plan))} : plan' = Append(plan, p)
GEnd == Len(plan) = Steps /\ ~done /\ done' = TRUE /\ UNCHANGED <<modulus, plan>>
GNext == GStep \/ GEnd
GSpec == GInit /\ [][GNext]_<<modulus, plan, done>>
Emit == done => PrintT("VPGEN" \o ToJson(plan))
=============================================================================
