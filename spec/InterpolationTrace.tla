------------------------- MODULE InterpolationTrace ------------------------
EXTENDS Interpolation, Trace
TInit == Init /\ l = 1
TBegin == IsOp("Begin") /\ Begin(Nil, Nil, 1)
TStream == IsOp("Stream") /\ Begin(E.x, E.h, E.n)
\* The harness continues where the library said.
TRun == IsOp("Run") /\ E.first = first /\ E.start = start /\ Run(E.avail, Size(E.y), E.y, E.next[1], E.next[2]) /\ E.kept = <<x, h>>
TWindow == IsOp("Window") /\ E.off + Size(E.y) <= FullOf(Size(x), Size(h), n) /\ E.y = Interpolated(x, h, n, E.off, Size(E.y))
           /\ E.len = Size(E.y) /\ UNCHANGED vars
TExpand == IsOp("Expand") /\ E.y = Expanded(E.x, E.n) /\ UNCHANGED vars
TDecimate == IsOp("Decimate") /\ E.y = Decimated(E.x, E.n) /\ UNCHANGED vars
TLength == IsOp("Length") /\ E.full = FullOf(E.x, E.h, E.n) /\ E.central = CentralOf(E.x, E.h, E.n) /\ UNCHANGED vars
TGuard == IsOp("Guard") /\ E.before = E.after /\ UNCHANGED vars
TNext == TBegin \/ TStream \/ TRun \/ TWindow \/ TExpand \/ TDecimate \/ TLength \/ TGuard
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
