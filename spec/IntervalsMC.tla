----------------------------- MODULE IntervalsMC -----------------------------
EXTENDS Intervals, TLC
CONSTANT N
VARIABLE others
All == {i \in (-N..N) \X (-N..N) : Proper(i)}
MCInit == Init /\ others = <<>>
MLoad == others = <<>> /\ \E i, a, b \in All : Load(i) /\ others' = <<a, b>>
Abs0(d) == cur[1] + d >= -N /\ cur[2] + d <= N
MShift == others # <<>> /\ \E d \in -N..N : Abs0(d) /\ Shift(d) /\ UNCHANGED others
MCNext == MLoad \/ MShift
MCSpec == MCInit /\ [][MCNext]_<<vars, others>>
Meet(a, b) == LET f == Max(a[1], b[1]) l == Min(a[2], b[2]) IN IF f < l THEN <<f, l>> ELSE <<0, 0>>
Covers(h, s) == s \subseteq Points(h)
Laws == others # <<>> => LET a == cur b == others[1] c == others[2] IN
    /\ IsMeet(Meet(a, b), a, b) /\ Meet(a, b) = Meet(b, a) /\ Points(Meet(a, Meet(b, c))) = Points(Meet(Meet(a, b), c))
    /\ Disjoint(a, b) = (Size(Meet(a, b)) = 0) /\ Hull(a, b) = Hull(b, a) /\ Hull(Hull(a, b), c) = Hull(a, Hull(b, c))
    /\ Covers(Hull(a, b), Points(a) \cup Points(b))
    /\ (~Disjoint(a, b) => Points(Hull(a, b)) = Points(a) \cup Points(b))
    \* Moving commutes with all of it.
    /\ Hull(Moved(a, 3), Moved(b, 3)) = Moved(Hull(a, b), 3) /\ Disjoint(Moved(a, -2), Moved(b, -2)) = Disjoint(a, b)
    /\ (~Disjoint(a, b) => Meet(Moved(a, 1), Moved(b, 1)) = Moved(Meet(a, b), 1))
Stays == [][others # <<>> => Size(cur') = Size(cur)]_<<vars, others>>
=============================================================================
