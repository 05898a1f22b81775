------------------------------ MODULE FourierMC ------------------------------
(* All signals of up to Size points with values in Vals: laws of the transform *)
EXTENDS Fourier, TLC, FiniteSets
CONSTANTS Size, Vals, Sparse
V == {-1, 0, 2}
VARIABLES spectrum, order
all == <<n, src, spectrum, order>>
MInit == Init /\ spectrum = <<>> /\ order = <<>>
\* Points one by one
MGrow == n < Size /\ n' = n + 1 /\ (\E a, b \in Vals : src' = Append(src, <<n, a, b>>)) /\ spectrum' = <<>> /\ order' = <<>>
\* Longer signals with few points
MSparse == n = 0 /\ \E m \in Sparse, p, q \in 0..12, a \in Vals : p < q /\ q < m /\ n' = m /\ src' = <<<<p, a, 1>>, <<q, 2, -a>>>> /\ spectrum' = <<>> /\ order' = <<>>
MForward == n > 0 /\ spectrum = <<>> /\ spectrum' = Forward(src, n) /\ order' = [k \in 1..n |-> k - 1] /\ UNCHANGED vars
MShift == order # <<>> /\ order[1] = 0 /\ order' = Centred(order) /\ UNCHANGED <<n, src, spectrum>>
MUnshift == order # <<>> /\ n > 1 /\ order[1] # 0 /\ order' = Uncentred(order) /\ UNCHANGED <<n, src, spectrum>>
MNext == MGrow \/ MSparse \/ MForward \/ MShift \/ MUnshift
MSpec == MInit /\ [][MNext]_all
Tol == 2 * n * (1 + Weight(src, 1)) 
CloseZ(a, b, t) == Close(a[1], b[1], t) /\ Close(a[2], b[2], t)
At(k) == spectrum[(k % n) + 1]
\* The inverse gives the signal back, bin values rounded to thousandths of the unit
Inverts == spectrum # <<>> => LET r == [k \in 1..n |-> <<k - 1, (spectrum[k][1] + 512) \div 1024, (spectrum[k][2] + 512) \div 1024>>]
                                  tw == Tw(n)
                                  small(v) == <<v[1] \div 1024, v[2] \div 1024>>
                                  \* Units of 2 ^ -20 throughout
                                  term(j, k) == LET t == small(tw[(j * k) % n]) x == r[k + 1] IN <<x[2] * t[1] - x[3] * t[2], x[2] * t[2] + x[3] * t[1]>>
                                  RECURSIVE Sum(_, _)
                                  Sum(j, k) == IF k < 0 THEN <<0, 0>> ELSE LET s == Sum(j, k - 1) t == term(j, k) IN <<s[1] + t[1], s[2] + t[2]>>
                              IN n <= Size => \A j \in 0..(n - 1) : CloseZ(Sum(j, n - 1), <<n * Dense(src, n)[j + 1][1] * Unit, n * Dense(src, n)[j + 1][2] * Unit>>, 3000 * Tol)
\* Real signals have conjugate symmetric spectra
Symmetry == spectrum # <<>> /\ (\A j \in 1..Len(src) : src[j][3] = 0) => \A k \in 0..(n - 1) : CloseZ(At(k), <<At(n - k)[1], -At(n - k)[2]>>, Tol)
\* The mean
ZeroBin == spectrum # <<>> => LET s == Accumulate(src, n, 0, -1, [k \in 0..(n - 1) |-> <<1, 0>>], 1) IN spectrum[1] = <<s[1] * Unit, s[2] * Unit>>
\* Moving the zero bin to the middle, and back
Shifts == order # <<>> => order[1] = 0 \/ order[(n \div 2) + 1] = 0
=============================================================================
