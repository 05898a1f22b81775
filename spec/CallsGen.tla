------------------------------ MODULE CallsGen ------------------------------
(* Programs of several threads: steps <<thread, kind, variant, nested>>, in each thread's order. *)
EXTENDS Calls, Json, Randomization
CONSTANTS Steps, Kinds, Variants
VARIABLES plan, done
X(S) == RandomElement(S)
GInit == Init /\ plan = <<>> /\ done = FALSE
NThreads(p) == p[1][1]
\* The first step is by the last thread.  Other threads often do the same kind of thing at the same time, with the same or
\* other sizes; at times everything is transforms.
Draw(p) == IF p = <<>> THEN <<X(2..4), X(0..(Kinds - 1)), X(0..(Variants - 1)), X(0..1)>>
           ELSE LET last == p[Len(p)]
                    how == X(1..6)
                    t == X(1..NThreads(p))
                    kind == IF how <= 3 THEN last[2] ELSE IF how = 4 THEN X(0..2) ELSE X(0..(Kinds - 1))
                    var == IF how = 1 THEN last[3] ELSE X(0..(Variants - 1))
                IN  <<t, kind, var, X(0..1)>>
GStep == Len(plan) < Steps /\ UNCHANGED <<vars, done>> /\ plan' = Append(plan, Draw(plan))
GEnd == Len(plan) = Steps /\ ~done /\ done' = TRUE /\ UNCHANGED <<vars, plan>>
GNext == GStep \/ GEnd
GSpec == GInit /\ [][GNext]_<<vars, plan, done>>
Emit == done => PrintT("VPGEN" \o ToJson(plan))
=============================================================================
