---------------------------- MODULE PolyphaseMC ----------------------------
(* Laws of the decomposition for all short filters, and independence of objects. *)
EXTENDS Polyphase, TLC
CONSTANTS MaxTaps, MaxPhases, Values, Steps
VARIABLES src, step
SqsOf(n) == UNION {[1..m -> Values] : m \in 0..n}
MCInit == Init /\ src = <<>> /\ step = 0
Step == step < Steps /\ step' = step + 1
\* The filter is the first step's.
MDecompose == step = 0 /\ step' = 1 /\ \E h \in SqsOf(MaxTaps), n \in 1..MaxPhases : Decompose(1, Real(h), n) /\ src' = h
MOther == step = 1 /\ Step /\ \E n \in 1..MaxPhases : Decompose(2, Real(ReverseSeq(src)), n) /\ UNCHANGED src
MCopy == step > 0 /\ Step /\ \E a, b \in Ids : Copy(a, b) /\ UNCHANGED src
MMove == step > 0 /\ Step /\ \E a, b \in Ids : Move(a, b) /\ UNCHANGED src
MNormalize == step > 0 /\ Step /\ \E k \in Ids : Normalize(k) /\ UNCHANGED src
MNormalizeCopy == step > 0 /\ Step /\ \E a, b \in Ids : NormalizeCopy(a, b) /\ UNCHANGED src
MWrite == step > 0 /\ Step /\ \E k \in Ids, p \in 0..1 : Write(k, p, 0, 7 * Unit) /\ UNCHANGED src
MCNext == MDecompose \/ MOther \/ MCopy \/ MMove \/ MNormalize \/ MNormalizeCopy \/ MWrite
MCSpec == MCInit /\ [][MCNext]_<<vars, src, step>>
\* Phases partition the taps; interleaving them is the filter.
Partition == step = 1 => LET o == objs[1] IN
    /\ Interleaved(o) = [t \in 1..Len(src) |-> Unit * o.n * src[t]]
    /\ Taps(o) = Len(src)
    /\ \A p, q \in 1..o.n : Size(o.phases[p]) - Size(o.phases[q]) \in {-1, 0, 1}
    /\ PerPhase(o) = (Len(src) + o.n - 1) \div o.n
NormalLaw == \A k \in Ids : Known(k) /\ Normalizable(objs[k]) => LET o == Normalized(objs[k]) IN
    /\ \A p \in 1..o.n : Size(o.phases[p]) > 0 => SumSeq(o.phases[p].r) = Unit
    /\ Normalizable(o) => Normalized(o) = o
\* Only addressed objects change.
Untouched == [][\E a, b \in Ids : \A k \in Ids \ {a, b} : objs'[k] = objs[k]]_vars
ValuesA == {-1, 0, 2}
=============================================================================
