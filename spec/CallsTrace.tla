----------------------------- MODULE CallsTrace -----------------------------
EXTENDS Calls, Trace
Abs(x) == IF x < 0 THEN -x ELSE x
Tol(x) == 2 + Abs(x) \div 100000
Numbers(s) == \A i \in 1..Len(s) : s[i] < 1900000001 /\ s[i] > -1900000001
Like(r, s) == Len(r) = Len(s) /\ Len(s) > 0 /\ Numbers(r) /\ \A i \in 1..Len(s) : r[i] >= s[i] - Tol(s[i]) /\ r[i] <= s[i] + Tol(s[i])
TInit == Init /\ l = 1
TBegin == IsOp("Begin") /\ Threads(E.threads, E.shared)
TAlone == IsOp("Alone") /\ Numbers(E.res) /\ Alone(E.task, E.res)
TStart == IsOp("Start") /\ Start(E.thread, E.task)
TFinish == IsOp("Finish") /\ Finish(E.thread, E.res, Like)
TEnd == IsOp("End") /\ End(E.shared, E.races)
TNext == TBegin \/ TAlone \/ TStart \/ TFinish \/ TEnd
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
