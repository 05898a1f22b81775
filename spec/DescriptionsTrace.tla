-------------------------- MODULE DescriptionsTrace --------------------------
EXTENDS Descriptions, Trace
TInit == Init /\ l = 1
TBegin == IsOp("Begin") /\ kind' = <<>> /\ set' = <<>>
\* Some descriptions show nothing before the first setting.
TStart == IsOp("Start") /\ Start(E.kind) /\ (E.shown => E.desc = set')
TPut == IsOp("Put") /\ Put(E.name, E.v) /\ E.outcome = Verdict(E.name, E.v) /\ (E.shown => E.desc = set')
\* Filters of descriptions that came about differently are the same: the one at hand, a copy of it, one made afresh of the
\* same settings in the declared order.
TDesign == IsOp("Design") /\ UNCHANGED vars /\ Designable /\ E.fresh = set
           /\ Len(E.got) > 2 /\ (\A f \in 1..Len(E.got) : E.got[f] = E.got[1])
           /\ Len(E.got[1]) >= 1 /\ \A i \in 1..Len(E.got[1]) : E.got[1][i] < 1900000000 /\ E.got[1][i] > -1900000000
TNormalized == IsOp("Normalized") /\ UNCHANGED vars /\ IsNormalized(E.post, E.quarters, E.rate)
TNext == TBegin \/ TStart \/ TPut \/ TDesign \/ TNormalized
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
