------------------------------ MODULE FirDesign ------------------------------
(* Filters of finite impulse responses that are designed into a memory.  A description d has d.method, d.type, band edges *)
(* d.e in parts of 64 of the Nyquist frequency, and a window d.w, or weights d.weight and a grid d.grid; the curves of    *)
(* arbitrary responses and weights are known by number.  Taps are fixed-point numbers (Fixed.tla).                        *)
EXTENDS Fixed
VARIABLES mem
vars == <<mem>>
W == INSTANCE Windows
R == INSTANCE Responses WITH re <- mem, im <- <<>>
Q == 64
Curves == 0..3
\* The curve at p / q of the Nyquist frequency
Curve(id, p, q) == CASE id = 0 -> One [] id = 1 -> One - FFrac(p, 2 * q) [] id = 2 -> (IF 2 * p < q THEN One ELSE 0) + One \div 4
                     [] OTHER -> One \div 2 + FSq(FFrac(p, q))
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Total(f) == SumTo(f, Len(f))

(* The window method *)
\* A window by a function, by its values, or one that rises from one half
WindowOf(d, n) == IF d.w.kind = "table" THEN d.w.table ELSE IF d.w.kind = "ramp" THEN [k \in 1..n |-> FFrac(n + k - 1, 2 * n)] \o <<>> ELSE W!Window(d.w.kind, n, d.w.a)
\* sin x / x at x = pi k p / q
Sinc(k, p, q) == IF k * p = 0 THEN One ELSE IF 4 * k * p <= q THEN SincSmall(FMul(Pi, FFrac(k * p, q)))
                 ELSE FMul(FDiv(SinT(k * p, 2 * q), Pi), FFrac(q, k * p))
\* The windowed response of a perfect low-pass of cutoff p / q, with a gain of one at zero
Lowpass(n, p, q, w) ==
    LET c == n \div 2
        raw == [k \in 1..n |-> FMul(Sinc(FAbs(k - 1 - c), p, q), w[k])] \o <<>>
        rough == Total([k \in 1..n |-> (raw[k] + 16) \div 32])
        s == IF rough < One \div 16 THEN 1 ELSE IF rough < One \div 12 THEN 2 ELSE IF rough < One \div 5 THEN 4 ELSE 16
        part == [k \in 1..n |-> (raw[k] + s \div 2) \div s] \o <<>>
        sum == Total(part)
    IN [k \in 1..n |-> FDiv(part[k], sum)] \o <<>>
\* Low-passes of half the band's width, moved to its centre
Bandpass(n, lo, hi, w) == R!Shift(Lowpass(n, hi - lo, 2 * Q, w), <<hi + lo, 2 * Q>>)
\* The inverse transform of the response sampled at points from zero to the Nyquist frequency
Sampled(n, id, w) ==
    LET m == n \div 2
        D == [k \in 1..(m + 1) |-> FMul(Curve(id, k - 1, FMax(m, 1)), FFrac(1, n))] \o <<>>
        cosines == [k \in 1..n |-> CosT(k - 1, n)] \o <<>>
        impulse == [t \in 1..(m + 1) |-> D[1] + 2 * Total([k \in 1..m |-> FMul(D[k + 1], cosines[((k * (t - 1)) % n) + 1])])] \o <<>>
    IN [k \in 1..n |-> FMul(impulse[FAbs(k - 1 - m) + 1], w[k])] \o <<>>
\* n is odd.
Windowed(d, n) == LET w == WindowOf(d, n) IN
    CASE d.type = "lowpass" -> Lowpass(n, d.e[1], Q, w) [] d.type = "highpass" -> R!Complement(Lowpass(n, d.e[1], Q, w), One)
      [] d.type = "bandpass" -> Bandpass(n, d.e[1], d.e[2], w) [] d.type = "bandstop" -> R!Complement(Bandpass(n, d.e[1], d.e[2], w), One)
      [] d.type = "halfband" -> Lowpass(n, 1, 2, w) [] OTHER -> Sampled(n, d.curve, w)

(* The least squares method: on a grid of G points from zero to the Nyquist frequency *)
GridOf(d, n) == LET m == (n + 1) \div 2 IN IF d.grid = 0 THEN 4 * m ELSE FMax(m, d.grid)
Smooth(c) == LET x == IF c < 0 THEN 0 ELSE IF c > One THEN One ELSE c IN FMul(FSq(x), 3 * One - 2 * x)
\* Rise from edge a to edge b, at p / q; fall where a > b
Ramp(p, q, a, b) == LET num == IF a < b THEN Q * p - a * q ELSE a * q - Q * p den == FAbs(b - a) * q IN IF num <= 0 THEN 0 ELSE IF num >= den THEN One ELSE Smooth(FFrac(num, den))
Response(d, p, q) ==
    CASE d.type \in {"lowpass", "halfband"} -> Ramp(p, q, d.e[2], d.e[1]) [] d.type = "highpass" -> Ramp(p, q, d.e[1], d.e[2])
      [] d.type = "bandpass" -> (IF 2 * Q * p < (d.e[2] + d.e[3]) * q THEN Ramp(p, q, d.e[1], d.e[2]) ELSE Ramp(p, q, d.e[4], d.e[3]))
      [] d.type = "bandstop" -> (IF 2 * Q * p < (d.e[2] + d.e[3]) * q THEN Ramp(p, q, d.e[2], d.e[1]) ELSE Ramp(p, q, d.e[3], d.e[4]))
      [] OTHER -> Curve(d.curve, p, q)
\* Bands and transitions are told apart by the edges, which belong to what is below.
Region(d, p, q) == CHOOSE i \in 1..(Len(d.e) + 1) : (i = Len(d.e) + 1 \/ Q * p <= d.e[i] * q) /\ \A j \in 1..(i - 1) : Q * p > d.e[j] * q
Largest(s) == CHOOSE v \in {s[i] : i \in 1..Len(s)} : \A i \in 1..Len(s) : s[i] <= v
WeightAt(d, p, q) == IF d.type = "arbitrary" THEN Curve(d.wcurve, p, q) ELSE FFrac(d.weight[Region(d, p, q)], Largest(d.weight))
\* The gradient of the weighted square error of the filter with taps h, for each of its free taps, in parts of 2 ^ -24
Gradient(d, h) ==
    LET n == Len(h)
        m == (n + 1) \div 2
        G == GridOf(d, n)
        cosines == [k \in 1..(2 * G - 2) |-> CosT(k - 1, 2 * G - 2)] \o <<>>
        a(g, j) == cosines[((g * j) % (2 * G - 2)) + 1]
        wrong == [g \in 1..G |-> LET w == WeightAt(d, g - 1, G - 1)
                                 IN IF w = 0 THEN 0 ELSE FMul(FSq(w), h[m] + 2 * Total([j \in 1..(m - 1) |-> FMul(h[m + j], a(g - 1, j))]) - Response(d, g - 1, G - 1))] \o <<>>
    IN [j \in 1..m |-> Total([g \in 1..G |-> FMul(wrong[g], a(g - 1, j - 1)) \div 16])]
Symmetric(h) == \A k \in 1..Len(h) : h[k] = h[Len(h) + 1 - k]
Solves(d, h, tol) == Symmetric(h) /\ LET g == Gradient(d, h) IN \A j \in 1..Len(g) : Close(g[j], 0, tol)

(* Hilbert transformers come from half-band filters: their taps, or every second one *)
Halfband(d) == IF d.method = "windowed" THEN [d EXCEPT !.type = "halfband"]
               ELSE [d EXCEPT !.type = "halfband", !.e = <<Q \div 2 - d.width, Q \div 2 + d.width>>, !.weight = <<16, d.weight[1], 16>>]
Antisymmetric(h) == \A k \in 1..Len(h) : h[k] = -h[Len(h) + 1 - k]
Near(s, w, tol) == Len(s) = Len(w) /\ \A k \in 1..Len(w) : Close(s[k], w[k], tol)

(* Whether taps h are those of a description.  The half-band filter of a least squares Hilbert transformer is given.      *)
Designed(d, h, half, tol) ==
    LET n == Len(h) IN
    IF d.type = "hilbert" THEN
        IF d.method = "windowed" THEN Near(h, IF n % 2 = 1 THEN R!Odd(Windowed(Halfband(d), n)) ELSE R!Even(Windowed(Halfband(d), 2 * n - 1)), tol)
        ELSE Antisymmetric(h) /\ Len(half) = (IF n % 2 = 1 THEN n ELSE 2 * n - 1) /\ Solves(Halfband(d), half, tol) /\ Near(h, IF n % 2 = 1 THEN R!Odd(half) ELSE R!Even(half), tol + 4)
    ELSE n % 2 = 1 /\ IF d.method = "windowed" THEN Near(h, Windowed(d, n), tol) ELSE Solves(d, h, tol)
\* Tap counts, and lengths v of windows that are signals (0: none), that there is a design for
Allowed(type, n, v) == (type = "hilbert" \/ n % 2 = 1) /\ (v = 0 \/ v = IF type = "hilbert" /\ n % 2 = 0 THEN 2 * n - 1 ELSE n)
\* Grid points that are not just on an edge or a step, unless they are exact
RECURSIVE Dyadic(_)
Dyadic(k) == k = 1 \/ (k % 2 = 0 /\ Dyadic(k \div 2))
Apart(d, n) == IF d.method = "windowed" THEN d.type # "arbitrary" \/ d.curve # 2 \/ (n \div 2) % 2 = 1 \/ n = 1 \/ Dyadic(n \div 2)
               ELSE LET c == GridOf(d, n) - 1 IN c > 0 /\ (Dyadic(c) \/ IF d.type = "arbitrary" THEN c % 2 = 1 \/ (d.curve # 2 /\ d.wcurve # 2) ELSE \A i \in 1..Len(d.e) : (d.e[i] * c) % Q # 0)

(* Actions *)
Init == mem = <<>>
Reserve(v) == mem' = v
\* The taps are where they were asked for, and nothing else changed.
Design(d, off, h, half, tol) == off + Len(h) <= Len(mem) /\ Designed(d, h, half, tol) /\ mem' = R!Put(mem, off, h)
=============================================================================
