-------------------------- MODULE ResamplingTrace --------------------------
EXTENDS Resampling, Trace
TInit == RInit /\ l = 1
TBegin == IsOp("Begin") /\ Stream(Nil, Nil, 1, 1, 1, ZeroT)
TStream == IsOp("Stream") /\ Stream(E.x, E.h, E.n, E.rate[1], E.rate[2], E.t)
TRun == IsOp("Run") /\ E.first = first /\ E.point = point /\ Resume(E.avail, E.y, E.scale, E.next[1], <<E.next[2], E.next[3]>>) /\ E.kept = <<x, h>>
TWindow == IsOp("Window") /\ Samples(E.y, E.scale, E.t) /\ Len(E.y.r) = E.len /\ UNCHANGED rvars
TFull == IsOp("Full") /\ Samples(E.y, E.scale, ZeroT) /\ IsFloor(Len(E.y.r), FullTime) /\ UNCHANGED rvars
CStart == LET g == GcdOf((Min2(Size(h), Size(x) * n) - 1) * den, n * num) IN <<((Min2(Size(h), Size(x) * n) - 1) * den) \div g, (n * num) \div g>>
TCentral == IsOp("Central") /\ Samples(E.y, E.scale, CStart) /\ IsFloor(Len(E.y.r), CentralTime) /\ UNCHANGED rvars
TLength == IsOp("Length") /\ REq(Q(E.full), FullTime) /\ REq(Q(E.central), CentralTime)
           /\ REq(Q(E.delay), RDiv(RI2(Size(h) - 1, 2 * n), Ratio))
           \* The filter has to stop what either rate cannot carry.
           /\ NearRat(E.cutoff[1], 1000000, RI2(1, n), 2)
           /\ NearRat(E.cutoff[2], 1000000, IF num > den THEN RI2(den, n * num) ELSE RI2(1, n), 2) /\ UNCHANGED rvars
TGuard == IsOp("Guard") /\ E.before = E.after /\ UNCHANGED rvars
TNext == TBegin \/ TStream \/ TRun \/ TWindow \/ TFull \/ TCentral \/ TLength \/ TGuard
TSpec == TInit /\ [][TNext]_<<rvars, l>>
=============================================================================
