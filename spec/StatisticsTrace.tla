-------------------------- MODULE StatisticsTrace --------------------------
EXTENDS Statistics, Trace
TInit == Init /\ l = 1
TBegin == IsOp("Begin") /\ a' = Empty /\ b' = Empty
TLoad == IsOp("Load") /\ Load(E.a, E.b)
TReduce == IsOp("Reduce") /\ Reduced(E.f, E.off, E.n, E.boff, E.res)
TMean == IsOp("Mean") /\ Meaned(E.f, E.off, E.n, E.res[1], E.res[2], E.scale)
TStat == IsOp("Stat") /\ Stated(E.f, E.off, E.n, E.boff, E.k, E.mu, E.mut, E.res[1], E.scale)
\* The operands afterwards
TKept == IsOp("Kept") /\ E.a = a /\ E.b = b /\ UNCHANGED vars
TNext == TBegin \/ TLoad \/ TReduce \/ TMean \/ TStat \/ TKept
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
