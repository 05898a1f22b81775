------------------------ MODULE ElementFunctionsGen ------------------------
(* The defined grid points of every function, for the harness to build signals from. *)
EXTENDS ElementFunctions, TLC, Json
VARIABLES f, isreal
GInit == Init /\ isreal \in BOOLEAN /\ f \in (IF isreal THEN DOMAIN RealTable ELSE DOMAIN ComplexTable)
GNext == FALSE /\ UNCHANGED <<vars, f, isreal>>
GSpec == GInit /\ [][GNext]_<<vars, f, isreal>>
Emit == PrintT("VPGEN" \o ToJson([f |-> f, real |-> isreal, points |-> SetToSeq(Points(f, isreal))]))
=============================================================================
