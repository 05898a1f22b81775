-------------------------- MODULE MeasurementTrace --------------------------
EXTENDS Measurement, Trace
TInit == Init /\ l = 1
\* Edges are recorded in parts of a sample.
Part == 64
Fits(e, range) == e >= Part * range[1] - 2 /\ e <= Part * range[2] + 2
\* Skirts of width w end at 3 / 2 w from the centre, unless ripple is there before; off by the sample that is next to the centre.
Left(e, b) == Fits(e, LeftEdge(m, b)) /\ (skirts # <<>> => LET s == skirts[b - 1] want == Part * s[1] + 96 * s[2] most == Part * LeftEdge(m, b)[2] IN
              (IF want > most THEN Close(e, most, 64) ELSE Close(e, want, 64)))
Right(e, b) == Fits(e, RightEdge(m, b)) /\ (skirts # <<>> => LET s == skirts[b] want == Part * s[1] - 96 * s[2] least == Part * RightEdge(m, b)[1] IN
               (IF want < least THEN Close(e, least, 64) ELSE e >= want - 64 /\ e <= want + 160))
Edges(e) == Len(e) = 2 * (Len(m.bands) - 1) /\ \A b \in 1..(Len(m.bands) - 1) : Right(e[2 * b - 1], b) /\ Left(e[2 * b], b + 1)
Ripples(r) == Len(r) = Len(m.bands) /\ \A b \in 1..Len(r) : r[b] = Ripple(m, b)
TBegin == IsOp("Begin") /\ m' = Nothing /\ skirts' = <<>>
TSamples == IsOp("Samples") /\ Samples(E.v)
\* Roundings of the levels are adopted.
TShape == IsOp("Shape") /\ skirts' = E.skirts /\ m' = FoldLeft(After, Nothing, E.v) /\ Len(E.v) = E.n
          /\ \A k \in 1..E.n : Close(E.v[k], (Level(E.skirts, k - 1, E.pass) + 8192) \div 16384, 1)
TMeasure == IsOp("Measure") /\ UNCHANGED vars
            /\ (\A f \in 1..Len(E.kinds) : E.kinds[f] = Kind(m))
            /\ \A f \in 1..Len(E.got) : LET g == E.got[f] IN
               /\ g.ok = (g.kind = Kind(m))
               /\ (g.ok => Edges(g.e) /\ Ripples(g.r))
\* Response of num / den at points p(k) / q turns: magnitudes as fixed-point numbers, phases in 1 / 400000 turns
Point(mag, ph) == <<FMul(mag, CosT(ph, 400000)), FMul(mag, SinT(ph, 400000))>>
TResponse == IsOp("Response") /\ UNCHANGED vars /\ \A f \in 1..Len(E.forms) : LET s == E.forms[f] IN
             /\ Len(s.mag) = E.grid /\ Len(s.phase) = E.grid
             /\ \A k \in 1..E.grid : LET n == Poly(E.num, E.turn[1] * (k - 1), E.turn[2]) d == Poly(E.den, E.turn[1] * (k - 1), E.turn[2])
                                         h == CTimes(Point(s.mag[k], s.phase[k]), d) IN
                /\ s.mag[k] >= 0 /\ FAbs(s.phase[k]) <= 200000
                /\ Close(h[1], n[1], 8000) /\ Close(h[2], n[2], 8000)
TNext == TBegin \/ TSamples \/ TShape \/ TMeasure \/ TResponse
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
