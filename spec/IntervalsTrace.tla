-------------------------- MODULE IntervalsTrace ---------------------------
EXTENDS Intervals, Trace
TInit == Init /\ l = 1
TBegin == IsOp("Begin") /\ cur' = <<0, 0>>
TPair == IsOp("Pair") /\ LET a == E.ab[1] b == E.ab[2] IN
    /\ \A k \in 1..Len(E.meet) : IsMeet(E.meet[k], a, b)
    /\ \A k \in 1..Len(E.hull) : E.hull[k] = Hull(a, b)
    /\ \A k \in 1..Len(E.disjoint) : E.disjoint[k] = (IF Disjoint(a, b) THEN 1 ELSE 0)
    /\ \A k \in 1..Len(E.union) : IsUnion(E.union[k], a, b)
    /\ E.equal = <<IF a = b THEN 1 ELSE 0, IF a = b THEN 0 ELSE 1>>
    /\ E.kept = <<a, b>> /\ UNCHANGED vars
TLoad == IsOp("Load") /\ Load(E.i) /\ E.size = Size(cur')
\* Moved by d (back and forth by the binary and compound forms): the interval afterwards and the results
TShift == IsOp("Shift") /\ Shift(E.d) /\ E.post = cur' /\ E.size = Size(cur')
          /\ \A k \in 1..Len(E.plus) : E.plus[k] = cur'
TBack == IsOp("Back") /\ Shift(-E.d) /\ E.post = cur' /\ E.size = Size(cur') /\ \A k \in 1..Len(E.minus) : E.minus[k] = cur'
TNext == TBegin \/ TPair \/ TLoad \/ TShift \/ TBack
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
