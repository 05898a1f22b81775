--------------------------- MODULE FirDesignTrace ---------------------------
EXTENDS FirDesign, Trace
TInit == Init /\ l = 1
\* Roundings of the element type, and of the specification's functions
Tol(d, n, float) == IF d.method = "windowed" THEN (IF float THEN 1500 + 100 * n ELSE 400 + 8 * n) ELSE IF float THEN 400 * n ELSE 40 * n
TBegin == IsOp("Begin") /\ mem' = <<>>
TReserve == IsOp("Reserve") /\ Reserve(E.v)
\* Designed into part of the memory, and as signals of their own: forms are all the same.
TDesign == IsOp("Design") /\ Allowed(E.d.type, E.n, E.v) /\ Len(E.mem) = Len(mem)
           /\ LET h == SubSeq(E.mem, E.off + 1, E.off + E.n) IN
              Design(E.d, E.off, h, E.half, Tol(E.d, E.n, E.float)) /\ mem' = E.mem /\ (\A f \in 1..Len(E.forms) : Near(E.forms[f], h, IF E.sharp THEN 0 ELSE 4000))
TRefuse == IsOp("Refuse") /\ UNCHANGED vars /\ ~Allowed(E.d.type, E.n, E.v) /\ E.outcome \in {"abort", "throw"}
TNext == TBegin \/ TReserve \/ TDesign \/ TRefuse
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
