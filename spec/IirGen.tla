------------------------------- MODULE IirGen -------------------------------
(* Histories of three realisations (direct form I, direct form II, cascade; ids 0..5, two of each kind): plans that the  *)
(* harness carries out on real objects.  A step is <<operation, id, argument>>.                                         *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Steps, Lengths
VARIABLES rest, plan, done
Ids == 0..5
GInit == rest = [i \in Ids |-> TRUE] /\ plan = <<>> /\ done = FALSE
Op(k, i, a) == plan' = Append(plan, <<k, i, a>>)
GFeed == \E i \in Ids, n \in Lengths : Op(1, i, n) /\ rest' = [rest EXCEPT ![i] = @ /\ n = 0]
GInPlace == \E i \in Ids, n \in Lengths : Op(2, i, n) /\ rest' = [rest EXCEPT ![i] = @ /\ n = 0]
GSamples == \E i \in Ids, n \in Lengths : Op(3, i, n) /\ rest' = [rest EXCEPT ![i] = @ /\ n = 0]
GValue == \E i \in Ids, n \in Lengths : Op(4, i, n) /\ rest' = [rest EXCEPT ![i] = @ /\ n = 0]
GReset == \E i \in Ids : ~rest[i] /\ Op(5, i, 0) /\ rest' = [rest EXCEPT ![i] = TRUE]
GReorder == \E i \in Ids, n \in 0..2 : rest[i] /\ Op(6, i, n) /\ UNCHANGED rest
GCopy == \E i \in Ids : LET j == IF i % 2 = 0 THEN i + 1 ELSE i - 1 IN
    Op(7, i, j) /\ rest' = [rest EXCEPT ![j] = rest[i]]
GNew == \E i \in Ids, n \in 0..2 : Op(8, i, n) /\ rest' = [rest EXCEPT ![i] = TRUE]
GMove == \E i \in Ids : LET j == IF i % 2 = 0 THEN i + 1 ELSE i - 1 IN
    Op(9, i, j) /\ rest' = [rest EXCEPT ![j] = rest[i], ![i] = TRUE]
GStep == GFeed \/ GInPlace \/ GSamples \/ GValue \/ GReset \/ GReorder \/ GCopy \/ GNew \/ GMove
GNext == \/ Len(plan) < Steps /\ GStep /\ UNCHANGED done
         \/ Len(plan) = Steps /\ ~done /\ done' = TRUE /\ UNCHANGED <<rest, plan>>
GSpec == GInit /\ [][GNext]_<<rest, plan, done>>
Emit == done => PrintT("VPGEN" \o ToJson(plan))
=============================================================================
