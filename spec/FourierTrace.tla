---------------------------- MODULE FourierTrace ----------------------------
EXTENDS Fourier, Trace
TInit == Init /\ l = 1
\* Rounding of the element type, relative to all points
Tol(float) == (IF float THEN 5 ELSE 2) * (1 + Weight(src, 1))
Near(s, w, tol) == Len(s.r) = Len(w) /\ Len(s.i) = Len(w) /\ \A k \in 1..Len(w) : Close(s.r[k], w[k][1], tol) /\ Close(s.i[k], w[k][2], tol)
NearReal(s, w, tol) == Len(s.r) = Len(w) /\ s.i = <<>> /\ \A k \in 1..Len(w) : Close(s.r[k], w[k][1], tol)
Untouched(g) == \A k \in 1..Len(g) : g[k] = 7
Points(s, w) == Len(s.r) = Len(w) /\ (\A k \in 1..Len(w) : s.r[k] = w[k][1]) /\ IF s.i = <<>> THEN TRUE ELSE Len(s.i) = Len(w) /\ \A k \in 1..Len(w) : s.i[k] = w[k][2]
TBegin == IsOp("Begin") /\ n' = 0 /\ src' = <<>>
TLoad == IsOp("Load") /\ Load(E.n, E.x)
\* The transforms of the points: full and half spectra, the signal is as it was, and what the inverses make of the spectra
TForward == IsOp("Forward") /\ UNCHANGED vars /\ LET w == Forward(src, n) d == Dense(src, n) tol == Tol(E.float) IN
    /\ \A f \in 1..Len(E.full) : Near(E.full[f], w, tol)
    /\ \A f \in 1..Len(E.half) : Near(E.half[f], Half(w), tol)
    /\ Untouched(E.guards)
    /\ Points(E.kept, d)
    /\ \A f \in 1..Len(E.back) : Points(E.back[f], d)
\* The inverse transforms of the points, times the size: complex ones, and real ones from full and half spectra
TBackward == IsOp("Backward") /\ UNCHANGED vars /\ LET w == Backward(src, n) tol == Tol(E.float) IN
    /\ \A f \in 1..Len(E.complex) : Near(E.complex[f], w, tol)
    /\ (IF E.real # <<>> THEN Hermitian(src, n) ELSE TRUE)
    /\ \A f \in 1..Len(E.real) : NearReal(E.real[f], w, tol)
    /\ Untouched(E.guards)
TShift == IsOp("Shift") /\ UNCHANGED vars /\ (\A f \in 1..Len(E.centred) : E.centred[f] = Centred(E.x)) /\ \A f \in 1..Len(E.uncentred) : E.uncentred[f] = Uncentred(E.x)
\* Frequencies in thousandths; q is the bin of the frequency f / g, which is not between two bins
TBin == IsOp("Bin") /\ UNCHANGED vars /\ Close(E.freq * E.bins, 1000 * E.bin * E.rate, E.bins) /\ E.back = E.bin
TNearest == IsOp("Nearest") /\ UNCHANGED vars /\ E.q = (2 * E.f * E.bins + E.rate) \div (2 * E.rate)
TNext == TBegin \/ TLoad \/ TForward \/ TBackward \/ TShift \/ TBin \/ TNearest
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
