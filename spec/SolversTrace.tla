---------------------------- MODULE SolversTrace ----------------------------
EXTENDS Solvers, Trace
TInit == Init /\ l = 1
TBegin == IsOp("Begin") /\ f' = [roots |-> <<0>>, sign |-> 1]
Slack == IF E.float THEN <<64, 0>> ELSE <<0, 64>>
TFunction == IsOp("Function") /\ Function(E.roots, E.sign)
TBisect == IsOp("Bisect") /\ Bisect(E.a, E.b, E.tol, <<E.v[1], E.low>>, Slack)
TNewton == IsOp("Newton") /\ Newton(E.x, E.tol, <<E.v[1], E.low>>, Slack)
TNext == TBegin \/ TFunction \/ TBisect \/ TNewton
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
