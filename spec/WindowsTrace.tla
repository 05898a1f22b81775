---------------------------- MODULE WindowsTrace ----------------------------
EXTENDS Windows, Trace
TInit == Init /\ l = 1
\* Roundings of the element type, and of the specification's functions of low precision
Tol(kind, float) == CASE kind = "dolphChebyshev" -> (IF float THEN 16000 ELSE 8000) [] kind = "kaiser" -> (IF float THEN 1400 ELSE 400) [] OTHER -> IF float THEN 1200 ELSE 100
Near(s, w, tol) == Len(s) = Len(w) /\ \A k \in 1..Len(w) : Close(s[k], w[k], tol)
TBegin == IsOp("Begin") /\ mem' = <<>>
TReserve == IsOp("Reserve") /\ Reserve(E.size, E.v) /\ E.mem = mem'
\* Into part of the memory: other cells are as they were.  All other ways of generating it give the same window, of real numbers.
TGenerate == IsOp("Generate") /\ Generate(E.kind, E.off, E.n, E.a) /\ LET tol == Tol(E.kind, E.float) IN
    /\ Len(E.mem) = Len(mem') /\ \A k \in 1..Len(mem') : Close(E.mem[k], mem'[k], IF k > E.off /\ k <= E.off + E.n THEN tol ELSE 0)
    /\ \A f \in 1..Len(E.forms) : Near(E.forms[f], SubSeq(mem', E.off + 1, E.off + E.n), tol)
    /\ \A k \in 1..Len(E.imag) : E.imag[k] = 0
\* In thousandths: the sum, and the sum of squares, per point
TGain == IsOp("Gain") /\ UNCHANGED vars /\ LET n == Len(E.x) IN
    /\ \A f \in 1..Len(E.coherent) : Close(E.coherent[f] * n, 1000 * Total(E.x, n), n)
    /\ \A f \in 1..Len(E.energy) : Close(E.energy[f] * n, 1000 * Total([k \in 1..n |-> E.x[k] * E.x[k]], n), n)
TNext == TBegin \/ TReserve \/ TGenerate \/ TGain
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
