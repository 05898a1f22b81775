---------------------------- MODULE ResamplingGen ---------------------------
(* Plans of runs for the harness, see InterpolationGen; here with the ratio of the rates and the start. *)
EXTENDS Resampling, TLC, Json, Randomization
CONSTANTS Runs, MaxX, MaxH, MaxPhases
VARIABLES plan, avail0, done
R(S) == RandomElement(S)
Rates == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 2>>, <<2, 3>>, <<5, 4>>, <<4, 5>>, <<7, 3>>, <<3, 7>>, <<6, 1>>, <<1, 5>>, <<147, 160>>, <<160, 147>>, <<11, 10>>}
Times0 == {<<0, 1>>, <<0, 1>>, <<1, 1>>, <<1, 2>>, <<1, 3>>, <<5, 4>>, <<7, 2>>}
Zeros(k) == Real(ZeroSeq(k))
GInit == \E lx \in 1..MaxX : \E lh \in {R(1..MaxH)} : \E k \in {R(1..MaxPhases)} : \E r \in {R(Rates)} : \E t \in {R(Times0)} :
    /\ x = Zeros(lx) /\ h = Zeros(lh) /\ n = k /\ num = r[1] /\ den = r[2] /\ next = t /\ point = t /\ full = Nil
    /\ pos = 0 /\ first = 0 /\ start = 0
    /\ plan = <<lx, lh, k, r[1], r[2], t[1], t[2]>> /\ avail0 = 0 /\ done = 0
RECURSIVE Longest(_, _)
Longest(a, len) == IF len < 150 /\ Within(a, len + 1) THEN Longest(a, len + 1) ELSE len
GRun == done < Runs /\ \E a \in {IF R(1..3) = 1 THEN Size(x) ELSE R(Max2(1, avail0)..Size(x))} : \E most \in {Longest(a, 0)} : \E c \in {R(1..4)} :
    \E len \in {CASE c = 1 -> most [] c = 2 -> Min2(1, most) [] OTHER -> R(0..most)} :
        plan' = plan \o <<a, len>> /\ avail0' = a /\ next' = <<next[1] + len * next[2], next[2]>> /\ done' = done + 1
        /\ UNCHANGED <<x, h, n, pos, first, start, num, den, full, point>>
GEnd == done = Runs /\ done' = Runs + 1 /\ UNCHANGED <<rvars, plan, avail0>>
GSpec == GInit /\ [][GRun \/ GEnd]_<<rvars, plan, avail0, done>>
Emit == done > Runs => PrintT("VPGEN" \o ToJson(plan))
=============================================================================
