---------------------------- MODULE MeasurementMC ----------------------------
(* Every short response over levels on both sides of the threshold and within the margin *)
EXTENDS Measurement, TLC
CONSTANTS Levels, MaxSize, Widths
VARIABLE last
allVars == <<m, skirts, last>>
SomeLevels == {0, 8100, 8190, 8195, 16384}
DeepLevels == {0, 300, 8100, 8190, 8195, 8300, 16000}
MInit == Init /\ last = "none"
MSample == last # "shape" /\ Size(m) < MaxSize /\ \E v \in Levels : Sample(v) /\ last' = "sample"
MShape == m = Nothing /\ last' = "shape" /\ \E w \in Widths : \E c \in {4 * w + 3, 5 * w + 4} : \E two \in BOOLEAN : \E p \in BOOLEAN :
          Shape(c + (IF two THEN 14 ELSE 5) * w + 20, IF two THEN <<<<c, w>>, <<c + 9 * w + 9, w>>>> ELSE <<<<c, w>>>>, p)
MNext == MSample \/ MShape
MSpec == MInit /\ [][MNext]_allVars
Firm(r) == SelectSeq(r, LAMBDA v : ~Unsure(v))
Turns(r) == Cardinality({k \in 1..(Len(r) - 1) : Above(r[k]) # Above(r[k + 1])})
Clear(r) == r # <<>> /\ ~Unsure(r[1]) /\ ~Unsure(r[Len(r)])
Of(r) == FoldLeft(After, Nothing, r)
Turned(r) == [k \in 1..Len(r) |-> Unit - r[k]]
\* Regions alternate, none is empty, and there are as many as firm samples change sides; unsure ones make none.
Regions == m.resp # <<>> => LET r == m.resp n == Len(m.bands) IN
    /\ Start(m, 1) = 0 /\ (\A b \in 2..n : Start(m, b) < End(m, b)) /\ (~Unsure(r[1]) => Start(m, 1) < End(m, 1)) /\ (\A b \in 1..(n - 1) : m.bands[b].pass # m.bands[b + 1].pass)
    /\ (~Unsure(r[1]) => n = 1 + Turns(Firm(r)) /\ m.bands[1].pass = Above(r[1]))
    /\ (~Unsure(r[1]) => Passes(m) = Passes(Of(Firm(r))))
\* Every firm sample is inside of a region of its own side.
Sides == (m.resp # <<>> => ~Unsure(m.resp[1])) => \A b \in 1..Len(m.bands) : \A i \in Start(m, b)..(End(m, b) - 1) : ~Unsure(m.resp[i + 1]) => Above(m.resp[i + 1]) = m.bands[b].pass
Swapped(k) == CASE k = "low" -> "high" [] k = "high" -> "low" [] k = "band" -> "stop" [] k = "stop" -> "band" [] OTHER -> "none"
Flipped(k) == CASE k = "low" -> "high" [] k = "high" -> "low" [] OTHER -> k
Symmetry == Clear(m.resp) => LET t == Of(Turned(m.resp)) u == Of(Reverse(m.resp)) IN
    /\ Kind(t) = Swapped(Kind(m)) /\ Kind(u) = Flipped(Kind(m))
    /\ [b \in 1..Len(m.bands) |-> Start(t, b)] = [b \in 1..Len(m.bands) |-> Start(m, b)]
    /\ \A b \in 1..Len(m.bands) : Ripple(t, b) = Ripple(m, b) /\ LeftEdge(t, b) = LeftEdge(m, b) /\ RightEdge(t, b) = RightEdge(m, b)
Edges == \A b \in 1..Len(m.bands) : LET e == LeftEdge(m, b) f == RightEdge(m, b) IN
    /\ e[1] <= e[2] /\ f[1] <= f[2] /\ (Best(m, b) # {} => e[2] < f[1]) /\ Ripple(m, b) <= Unit
\* Skirts are where they are put, and are no ripples.
Skirts == last = "shape" => /\ Len(m.bands) = Len(skirts) + 1 /\ Kind(m) # "none"
                            /\ (\A j \in 1..Len(skirts) : Start(m, j + 1) = skirts[j][1])
                            /\ \A b \in 1..Len(m.bands) : Ripple(m, b) <= 2
=============================================================================
