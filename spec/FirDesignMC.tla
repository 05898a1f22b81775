---------------------------- MODULE FirDesignMC ----------------------------
(* Laws of the designs: gains, symmetries, relations between the types; what solves least squares problems, and what not. *)
EXTENDS FirDesign, TLC
CONSTANTS Sizes, Edges, Windows0, Grids
VARIABLES d, n
mvars == <<mem, d, n>>
MInit == Init /\ d = <<>> /\ n = 0
Flat == [method |-> "windowed", type |-> "lowpass", e |-> <<16>>, width |-> 8, curve |-> 0, wcurve |-> 0, grid |-> 0, weight |-> <<16>>, w |-> [kind |-> "hamming", a |-> <<1, 1>>]]
Ws(k) == [kind |-> k, a |-> <<3, 2>>]
Empty == mem = <<>>
Take(x, size) == d' = x /\ n' = size /\ UNCHANGED mem
MSplit == Empty /\ n = 0 /\ \E s \in Sizes, t \in {"lowpass", "highpass", "halfband"}, e \in Edges, k \in Windows0 : Take([Flat EXCEPT !.type = t, !.e = <<e>>, !.w = Ws(k)], s)
MBand == Empty /\ n = 0 /\ \E s \in Sizes, t \in {"bandpass", "bandstop"}, e \in Edges, b \in Edges, k \in Windows0 : e < b /\ Take([Flat EXCEPT !.type = t, !.e = <<e, b>>, !.w = Ws(k)], s)
MSampled == Empty /\ n = 0 /\ \E s \in Sizes, c \in Curves, k \in Windows0 : Take([Flat EXCEPT !.type = "arbitrary", !.curve = c, !.w = Ws(k)], s)
MHilbert == Empty /\ n = 0 /\ \E s \in Sizes, k \in Windows0, even \in BOOLEAN : s > 1 /\ (even => s % 4 = 3) /\ Take([Flat EXCEPT !.type = "hilbert", !.w = Ws(k)], IF even THEN (s + 1) \div 2 ELSE s)
MMake == Empty /\ n > 0 /\ UNCHANGED <<d, n>> /\
         LET h == Windowed(IF d.type = "hilbert" THEN Halfband(d) ELSE d, IF n % 2 = 1 THEN n ELSE 2 * n - 1)
         IN mem' = IF d.type # "hilbert" THEN h ELSE IF n % 2 = 1 THEN R!Odd(h) ELSE R!Even(h)
Delta(size, v) == [k \in 1..size |-> IF k = size \div 2 + 1 THEN v ELSE 0]
\* The impulse is the one solution for a flat response, whatever the weights and the grid.
MFlat == Empty /\ n = 0 /\ \E s \in Sizes, c \in Curves, g \in Grids : d' = [Flat EXCEPT !.method = "leastSquares", !.type = "arbitrary", !.wcurve = c, !.grid = g] /\ n' = s /\ mem' = Delta(s, One)
\* One tap is the average of the response by the squared weights.
MMean == Empty /\ n = 0 /\ \E e \in Edges, g \in Grids, up \in BOOLEAN :
            /\ d' = [Flat EXCEPT !.method = "leastSquares", !.type = IF up THEN "highpass" ELSE "lowpass", !.e = <<e, e + 4>>, !.weight = <<16, 8, 4>>, !.grid = IF g = 0 THEN 9 ELSE g]
            /\ n' = 1
            /\ LET G == IF g = 0 THEN 9 ELSE g
                   w(i) == IF Q * i <= e * (G - 1) THEN 16 ELSE IF Q * i <= (e + 4) * (G - 1) THEN 4 ELSE 1
                   num == Total([i \in 1..G |-> w(i - 1) * (Response(d', i - 1, G - 1) \div 1024)])
                   den == Total([i \in 1..G |-> w(i - 1)])
               IN mem' = <<(num \div den) * 1024>>
MNext == MSplit \/ MBand \/ MSampled \/ MHilbert \/ MMake \/ MFlat \/ MMean
MSpec == MInit /\ [][MNext]_mvars
Is(types) == mem # <<>> /\ d.method = "windowed" /\ d.type \in types
Ends == \A k \in 1..Len(mem) : Close(mem[k], mem[Len(mem) + 1 - k], 20)
Other == Windowed([d EXCEPT !.type = CASE d.type = "highpass" -> "lowpass" [] d.type = "bandstop" -> "bandpass" [] OTHER -> d.type], n)
Gains == /\ (Is({"lowpass", "halfband"}) => Close(Total(mem), One, 8 * n) /\ Ends)
         /\ (Is({"highpass"}) => Close(Total(mem), 0, 8 * n) /\ Ends)
         /\ (Is({"highpass", "bandstop"}) => Near(R!Complement(mem, One), Other, 2))
         /\ (Is({"bandstop", "bandpass"}) => Ends)
\* Half-bands have no taps an even distance from the centre.
Halves == Is({"halfband"}) => \A k \in 1..n : (k # n \div 2 + 1 /\ (k - (n \div 2 + 1)) % 2 = 0) => Close(mem[k], 0, 20)
\* The response at the points that were sampled, with a rectangular window: all of it, for flat ones
Sampling == Is({"arbitrary"}) /\ d.curve = 0 => Near(mem, Delta(n, WindowOf(d, n)[n \div 2 + 1]), 30 * n)
Hilberts == Is({"hilbert"}) => Antisymmetric(mem) \/ \A k \in 1..n : Close(mem[k], -mem[n + 1 - k], 40)
Perturbed(k, by) == [mem EXCEPT ![k] = @ + by, ![Len(mem) + 1 - k] = IF 2 * k = Len(mem) + 1 THEN @ ELSE @ + by]
Squares == mem # <<>> /\ d.method = "leastSquares" =>
            \A k \in 0..((n + 1) \div 2) : (k = 0) = Solves(d, IF k = 0 THEN mem ELSE Perturbed(k, One \div 64), IF n = 1 THEN 65536 ELSE 200)
Seen == mem # <<>> => PrintT("VPACT " \o d.method \o "_" \o d.type)
=============================================================================
