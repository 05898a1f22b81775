---------------------------- MODULE IirDesignMC ----------------------------
(* Laws of the theory: levels at the band edges, in the bands, the symmetry of elliptic functions, the two ways of Chebyshev *)
(* polynomials, mirrored types; and the filters of order one or two, exactly, against ones changed a bit.                    *)
EXTENDS IirDesign, TLC
CONSTANTS Orders, Edges, Ripples, Points
VARIABLES d, n
mvars == <<filter, d, n>>
MInit == Init /\ d = <<>> /\ n = 0
Pick == [method |-> "", type |-> "", e |-> <<>>, pass |-> <<>>, stop |-> <<>>]
MPick == d = <<>> /\ UNCHANGED filter /\ \E m \in Methods, t \in Types, k \in Orders :
    (t \in {"bandpass", "bandstop"} => k % 2 = 0) /\ d' = [Pick EXCEPT !.method = m, !.type = t] /\ n' = k
MDescribe == d # <<>> /\ d.e = <<>> /\ UNCHANGED <<filter, n>> /\ \E a \in Edges, b \in Edges, p \in Ripples, s \in Ripples :
    /\ (IF d.type \in {"lowpass", "highpass"} THEN b = a ELSE a < b)
    /\ (d.method \in {"butterworth", "chebyshev2"} => p = 1) /\ (d.method \in {"butterworth", "chebyshev1"} => s = 1)
    /\ (d.method = "elliptic" /\ n > 5 /\ a = b => p <= 6 /\ s <= 6)
    /\ d' = [d EXCEPT !.e = IF a = b THEN <<a>> ELSE <<a, b>>, !.pass = <<p, Q>>, !.stop = <<s, Q>>]
\* The filters of prototypes of order one that have no zeros, by the bilinear transformation of 1 / (1 + s)
First == LET t == SinT(d.e[1], 4 * Q) c == CosT(d.e[1], 4 * Q) p == FDiv(c - t, c + t)
             g == IF d.type = "lowpass" THEN (One - p) \div 2 ELSE (One + p) \div 2
         IN [zr |-> <<IF d.type = "lowpass" THEN -One ELSE One>>, pr |-> <<p>>, zc |-> <<>>, pc |-> <<>>, gain |-> <<g, 0>>]
\* and of order two for bands: (1 - b) / 2 * (1 - z^-2) / (1 - a (1 + b) / 1 z^-1 + b z^-2)
Second == LET c == d.e[2] - d.e[1] s == d.e[2] + d.e[1]
              t == FDiv(SinT(c, 4 * Q), CosT(c, 4 * Q))
              b == FDiv(One - t, One + t)
              k == FDiv(CosT(s, 4 * Q), CosT(c, 4 * Q))        \* centre
              re == FMul(k, One + b) \div 2
              disc == FSq(re) - b
          IN [zr |-> IF d.type = "bandpass" THEN <<One, -One>> ELSE <<>>,
              zc |-> IF d.type = "bandpass" THEN <<>> ELSE <<<<k, FSqrt(One - FSq(k))>>>>,
              pr |-> IF disc >= 0 THEN <<re + FSqrt(disc), re - FSqrt(disc)>> ELSE <<>>,
              pc |-> IF disc >= 0 THEN <<>> ELSE <<<<re, FSqrt(-disc)>>>>,
              gain |-> <<IF d.type = "bandpass" THEN (One - b) \div 2 ELSE (One + b) \div 2, 0>>]
Simple == d.method = "butterworth" /\ ((Len(d.e) = 1 /\ n = 1) \/ (Len(d.e) = 2 /\ n = 2 /\ d.e[2] - d.e[1] < 30))
Frequencies == [i \in 1..Points |-> <<i - 1, Points>>] \o <<>>
MDesign == d # <<>> /\ d.e # <<>> /\ filter = <<>> /\ UNCHANGED <<d, n>> /\ Simple
           /\ Design(d, n, IF n = 1 THEN First ELSE Second, Frequencies, 200, 4)
MNext == MPick \/ MDescribe \/ MDesign
MSpec == MInit /\ [][MNext]_mvars
Known == d # <<>> /\ d.e # <<>> /\ filter = <<>>
N == PrototypeOrder(d, n)
At(p, q) == Level(d, N, Proto(d, p, q))
Edge == CASE d.method = "butterworth" -> -(Lb2 \div 2)
          [] d.method = "chebyshev2" -> LF(d.stop[1], d.stop[2])
          [] OTHER -> LF(d.pass[2] - d.pass[1], d.pass[2])
AtEdges == Known => (\A i \in 1..Len(d.e) : Close(At(d.e[i], Q), Edge, 400 * N))
InBand(p, q) == LET w(i) == p * Q - d.e[i] * q IN
    CASE d.type = "lowpass" -> w(1) <= 0 [] d.type = "highpass" -> w(1) >= 0 [] d.type = "bandpass" -> w(1) >= 0 /\ w(2) <= 0 [] OTHER -> w(1) <= 0 \/ w(2) >= 0
\* Levels keep within the ripples.
Bands == Known => \A i \in 1..Points : LET l == At(i - 1, Points) in == InBand(i - 1, Points) t == 400 * N IN
    /\ (in /\ d.method # "chebyshev2" => l >= Edge - t)
    /\ (~in /\ d.method # "elliptic" => l <= Edge + t)
    /\ (in /\ d.method = "chebyshev2" => l >= Edge - t)
    /\ l <= 0
\* Elliptic: R(x) R(1 / (k x)) = 1 / k1, and the levels beyond 1 / k are at most the stop band's.
Symmetric == Known /\ d.method = "elliptic" /\ Len(d.e) = 1 =>
    LET lk1 == LEpsPass(d.pass) + LEpsStop(d.stop) t == Theta(N, lk1) k == FSq(t.rootk)
        x(i) == FFrac(i, 10)
    IN \A i \in 1..10 : LET a == LRational(N, lk1, <<x(i), One>>) b == LRational(N, lk1, <<One, FMul(k, x(i))>>) IN
           /\ (~None(a) /\ a > -60000000 => Close(a + b, -lk1, 4000 * N))
           /\ (~Huge(b) => b >= -lk1 - 400 * N) /\ (None(a) \/ a <= 400 * N)
\* Mirrored descriptions
Mirrored == LET m == [d EXCEPT !.e = IF Len(d.e) = 1 THEN <<Q - d.e[1]>> ELSE <<Q - d.e[2], Q - d.e[1]>>,
                               !.type = CASE d.type = "lowpass" -> "highpass" [] d.type = "highpass" -> "lowpass" [] OTHER -> d.type]
            IN \A i \in 0..Points : LET a == At(i, Points) b == Level(m, N, Proto(m, Points - i, Points)) IN (None(a) /\ None(b)) \/ Close(a, b, 400 * N) \/ (a < -100000000 /\ b < -100000000)
Mirrors == Known => Mirrored
\* Anything else than the filter is no design.
Others == LET f == filter e == One \div 512 IN
    {[f EXCEPT !.gain[1] = @ + e]} \cup {[f EXCEPT !.pr[i] = @ - e] : i \in 1..Len(f.pr)} \cup {[f EXCEPT !.pc[i][j] = @ - e] : i \in 1..Len(f.pc), j \in 1..2}
    \cup {[f EXCEPT !.zr[i] = 0 - @] : i \in 1..Len(f.zr)} \cup {[f EXCEPT !.zc[i][2] = @ + e] : i \in 1..Len(f.zc)} \cup {[f EXCEPT !.pr = @ \o <<0>>], [f EXCEPT !.zr = @ \o <<0>>]}
Unique == filter # <<>> => \A f \in Others : ~ENABLED Design(d, n, f, Frequencies, 200, 4)
Refused == Known /\ Len(d.e) = 2 => ~Valid(d, n + 1)
Seen == Known => PrintT("VPACT " \o d.method \o "_" \o d.type)
Done == filter # <<>> => PrintT("VPACT designed_" \o d.type)
=============================================================================
