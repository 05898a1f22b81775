----------------------------- MODULE Measurement -----------------------------
(* Measuring magnitude responses: samples come one by one, in units of 1 / Unit, and the regions found are kept with them. *)
(* A region ends where a sample is beyond the threshold of one half by more than the noise margin; it is taken to end in   *)
(* the middle of the run of unsure samples before that.                                                                    *)
EXTENDS Fixed, SequencesExt, FiniteSetsExt
VARIABLES m, skirts
vars == <<m, skirts>>
Unit == 16384
Margin == 5005
Above(v) == 10000 * v > Margin * Unit
Below(v) == 10000 * v <= (10000 - Margin) * Unit
Pass(v) == 2 * v > Unit
Unsure(v) == ~Above(v) /\ ~Below(v)
\* resp: samples; bands: index of the first sample, and whether it passes; run: where the present run of unsure samples began, or -1.
Nothing == [resp |-> <<>>, bands |-> <<>>, run |-> -1]
After(s, v) == LET i == Len(s.resp) r == Append(s.resp, v) IN
    IF s.bands = <<>> THEN [resp |-> r, bands |-> <<[first |-> 0, pass |-> Pass(v)]>>, run |-> IF Unsure(v) THEN 0 ELSE -1]
    ELSE LET p == s.bands[Len(s.bands)].pass from == IF s.run = -1 THEN i ELSE s.run IN
         CASE Unsure(v) -> [resp |-> r, bands |-> s.bands, run |-> from]
           [] (IF p THEN Below(v) ELSE Above(v)) -> [resp |-> r, bands |-> Append(s.bands, [first |-> (i + from) \div 2, pass |-> ~p]), run |-> -1]
           [] OTHER -> [resp |-> r, bands |-> s.bands, run |-> -1]

(* What there is to report *)
Size(s) == Len(s.resp)
Start(s, b) == s.bands[b].first
End(s, b) == IF b = Len(s.bands) THEN Size(s) ELSE s.bands[b + 1].first          \* One past the end
Sequences == [low |-> <<TRUE, FALSE>>, high |-> <<FALSE, TRUE>>, band |-> <<FALSE, TRUE, FALSE>>, stop |-> <<TRUE, FALSE, TRUE>>]
Kinds == DOMAIN Sequences
Passes(s) == [b \in 1..Len(s.bands) |-> s.bands[b].pass]
Kind(s) == IF \E k \in Kinds : Sequences[k] = Passes(s) THEN CHOOSE k \in Kinds : Sequences[k] = Passes(s) ELSE "none"
\* Ripple peaks of a region: samples (from zero) that none of the two on either side goes beyond
Top(s, i) == \A d \in {-2, -1, 1, 2} : s.resp[i + 1 + d] <= s.resp[i + 1]
Bottom(s, i) == \A d \in {-2, -1, 1, 2} : s.resp[i + 1 + d] >= s.resp[i + 1]
Inner(s, b) == (Start(s, b) + 2)..(End(s, b) - 3)
Peaks(s, b) == {i \in Inner(s, b) : Top(s, i) \/ Bottom(s, i)}
Best(s, b) == {i \in Inner(s, b) : IF s.bands[b].pass THEN Top(s, i) ELSE Bottom(s, i)}
Deviation(s, b, i) == FAbs((IF s.bands[b].pass THEN Unit ELSE 0) - s.resp[i + 1])
Ripple(s, b) == Max({0} \cup {Deviation(s, b, i) : i \in Peaks(s, b)})
\* A region's edge is between its border and its first (last) best peak.
LeftEdge(s, b) == LET e == Best(s, b) IN <<Start(s, b), IF e = {} THEN End(s, b) ELSE Min(e)>>
RightEdge(s, b) == LET e == Best(s, b) IN <<IF e = {} THEN Start(s, b) ELSE Max(e) + 1, End(s, b)>>

(* Responses with skirts like the error function's: at each centre (from zero), of the width given *)
Nearest(sk, k) == CHOOSE j \in 1..Len(sk) : \A i \in 1..Len(sk) : FAbs(k - sk[j][1]) <= FAbs(k - sk[i][1])
Skirt(d, w) == IF d >= 4 * w THEN One ELSE IF d <= -4 * w THEN -One ELSE FErf(FFrac(d, w))
Level(sk, k, pass) == LET j == Nearest(sk, k) e == Skirt(k - sk[j][1], sk[j][2]) up == (j % 2 = 0) = pass
                  IN (One + (IF up THEN e ELSE -e)) \div 2

(* Magnitude and phase: a point of the response num / den, both polynomials of z; p / q turns per sample *)
Cis(p, q) == <<CosT(p, q), SinT(p, q)>>
CTimes(a, b) == <<FMul(a[1], b[1]) - FMul(a[2], b[2]), FMul(a[1], b[2]) + FMul(a[2], b[1])>>
RECURSIVE PolyFrom(_, _, _, _)
PolyFrom(c, k, p, q) == IF k > Len(c) THEN <<0, 0>> ELSE LET z == Cis((k - 1) * p, q) r == PolyFrom(c, k + 1, p, q)
                        IN <<r[1] + FMul(c[k], z[1]), r[2] + FMul(c[k], z[2])>>
Poly(c, p, q) == PolyFrom(c, 1, p, q)

(* Actions *)
Init == m = Nothing /\ skirts = <<>>
Sample(v) == m' = After(m, v) /\ skirts' = <<>>
Samples(vs) == m' = FoldLeft(After, m, vs) /\ skirts' = <<>>
Shape(n, sk, pass) == skirts' = sk /\ \E r \in {[k \in 1..n |-> (Level(sk, k - 1, pass) + 8192) \div 16384]} : m' = FoldLeft(After, Nothing, r)
=============================================================================
