------------------------------- MODULE Fourier -------------------------------
(* The discrete Fourier transform.  A signal or spectrum of n points is given by the points that are not zero,            *)
(* <<position from zero, re, im>> with small integers, or by all values <<re, im>>, in units of 2 ^ -20.                  *)
EXTENDS Fixed
VARIABLES n, src
vars == <<n, src>>
Unit == 1048576
Tw(size) == [k \in 0..(size - 1) |-> <<(CosT(k, size) + 128) \div 256, (SinT(k, size) + 128) \div 256>>]
RECURSIVE Accumulate(_, _, _, _, _, _)
\* Bin k: the points from j on, where sign is -1 forward and 1 backward
Accumulate(x, size, k, sign, tw, j) ==
    IF j > Len(x) THEN <<0, 0>>
    ELSE LET t == tw[(k * x[j][1]) % size] s == sign * t[2] r == Accumulate(x, size, k, sign, tw, j + 1)
         IN <<r[1] + x[j][2] * t[1] - x[j][3] * s, r[2] + x[j][2] * s + x[j][3] * t[1]>>
Transform(x, size, sign) == LET tw == Tw(size) IN [k \in 1..size |-> Accumulate(x, size, k - 1, sign, tw, 1)]
Forward(x, size) == Transform(x, size, -1)
Backward(x, size) == Transform(x, size, 1)            \* times the size
HalfSize(size) == size \div 2 + 1
Half(s) == SubSeq(s, 1, HalfSize(Len(s)))
RECURSIVE Weight(_, _)
Weight(x, j) == IF j > Len(x) THEN 0 ELSE FAbs(x[j][2]) + FAbs(x[j][3]) + Weight(x, j + 1)
\* All points of <<position, re, im>>
Dense(x, size) == [k \in 1..size |-> LET h == SelectSeq(x, LAMBDA p : p[1] = k - 1) IN IF h = <<>> THEN <<0, 0>> ELSE <<h[1][2], h[1][3]>>]
Hermitian(x, size) == \A j \in 1..Len(x) : \E i \in 1..Len(x) : x[i][1] = (size - x[j][1]) % size /\ x[i][2] = x[j][2] /\ x[i][3] = -x[j][3]

(* Moving the zero bin of any sequence to position floor(n / 2), and back *)
Rotate(s, by) == [k \in 1..Len(s) |-> s[((k - 1 + by) % Len(s)) + 1]]
Centred(s) == IF s = <<>> THEN s ELSE Rotate(s, (Len(s) + 1) \div 2)
Uncentred(s) == IF s = <<>> THEN s ELSE Rotate(s, Len(s) \div 2)

Init == n = 0 /\ src = <<>>
Load(size, x) == n' = size /\ src' = x /\ \A j \in 1..Len(x) : x[j][1] \in 0..(size - 1)
=============================================================================
