-------------------------- MODULE InterpolationGen -------------------------
(* Plans of runs for the harness: lengths of the stream and the filter, the rate, then for each run how much of the      *)
(* stream is there and how much output is taken.  The harness fills in the samples.                                     *)
EXTENDS Signals, TLC, Json, Randomization
CONSTANTS Runs, MaxX, MaxH, MaxRate
VARIABLES lx, lh, n, plan, avail, pos, done
gvars == <<lx, lh, n, plan, avail, pos, done>>
R(S) == RandomElement(S)
GInit == lx \in 1..MaxX /\ lh \in 1..MaxH /\ n \in 1..MaxRate /\ plan = <<>> /\ avail = 0 /\ pos = 0 /\ done = FALSE
Most(a) == (IF a = lx THEN FullLength(lx * n, lh) ELSE a * n) - pos
\* Single samples, whole stretches, and anything between
GRun == Len(plan) < Runs /\ \E a \in {IF R(1..3) = 1 THEN lx ELSE R(avail..lx)} : \E c \in {R(1..4)} :
    \E len \in {CASE c = 1 -> Most(a) [] c = 2 -> Min2(1, Most(a)) [] OTHER -> R(0..Most(a))} :
        plan' = Append(plan, <<a, len>>) /\ avail' = a /\ pos' = pos + len /\ UNCHANGED <<lx, lh, n, done>>
GEnd == Len(plan) = Runs /\ ~done /\ done' = TRUE /\ UNCHANGED <<lx, lh, n, plan, avail, pos>>
GSpec == GInit /\ [][GRun \/ GEnd]_gvars
Emit == done => PrintT("VPGEN" \o ToJson([lx |-> lx, lh |-> lh, n |-> n, plan |-> plan]))
=============================================================================
