---------------------------- MODULE Descriptions ----------------------------
(* Filter descriptions: records of settings, changed by one setter at a time.  Numbers are in millionths.                 *)
EXTENDS Integers, Sequences
VARIABLES kind, set
vars == <<kind, set>>
Million == 1000000
Splits == {"lowpass", "highpass"}
Bands == {"bandpass", "bandstop"}
Recursive == {"butterworth", "chebyshev1", "chebyshev2", "elliptic"}
Methods == {"windowed", "leastSquares"} \cup Recursive
Kinds == {k \in Methods \X (Splits \cup Bands \cup {"hilbert", "arbitrary"}) : k[1] \in Recursive => k[2] \in Splits \cup Bands}

(* What there is to set, and what it is when it is not set *)
Hamming == <<0>>
Flat == <<0>>                                                    \* The response and the weight that are one everywhere
Edges(k) == IF k[1] = "leastSquares" THEN (IF k[2] \in Splits THEN <<450000, 550000>> ELSE <<200000, 300000, 700000, 800000>>)
            ELSE IF k[2] \in Splits THEN <<500000>> ELSE <<250000, 750000>>
Weights(k) == IF k[2] \in Splits THEN <<Million, 0, Million>> ELSE <<Million, 0, Million, 0, Million>>
Ripple == <<100000>>
Default(k) ==
    CASE k[1] = "windowed" /\ k[2] = "hilbert" -> [window |-> Hamming]
      [] k[1] = "windowed" /\ k[2] = "arbitrary" -> [response |-> Flat, window |-> Hamming]
      [] k[1] = "windowed" -> [edges |-> Edges(k), window |-> Hamming]
      [] k[1] = "leastSquares" /\ k[2] = "hilbert" -> [width |-> <<Million>>, weight |-> <<Million>>, grid |-> <<0>>]
      [] k[1] = "leastSquares" /\ k[2] = "arbitrary" -> [response |-> Flat, weight |-> Flat, grid |-> <<0>>]
      [] k[1] = "leastSquares" -> [edges |-> Edges(k), weight |-> Weights(k), grid |-> <<0>>]
      [] k[1] = "butterworth" -> [edges |-> Edges(k)]
      [] k[1] = "chebyshev1" -> [edges |-> Edges(k), passRipple |-> Ripple]
      [] k[1] = "chebyshev2" -> [edges |-> Edges(k), stopRipple |-> Ripple]
      [] OTHER -> [edges |-> Edges(k), passRipple |-> Ripple, stopRipple |-> Ripple]

(* Band edges are normalized frequencies in increasing order; "nan" is a value that is out of every range. *)
Nan == 2000000001
Normal(v) == 0 <= v /\ v <= Million
Sorted(v) == \A i \in 1..(Len(v) - 1) : v[i] <= v[i + 1]
Verdict(name, v) == IF name # "edges" THEN "ok" ELSE IF \E i \in 1..Len(v) : ~Normal(v[i]) THEN "domain" ELSE IF ~Sorted(v) THEN "order" ELSE "ok"
Fits(name, v) == name \in DOMAIN set /\ (name # "window" => Len(v) = Len(set[name]))

(* Actions *)
Init == kind = <<>> /\ set = <<>>
Start(k) == k \in Kinds /\ kind' = k /\ set' = Default(k)
\* The last value counts; one that is refused leaves the description as it was.
Put(name, v) == /\ kind # <<>> /\ Fits(name, v) /\ UNCHANGED kind
                /\ set' = IF Verdict(name, v) = "ok" THEN [set EXCEPT ![name] = v] ELSE set
\* Descriptions that can be designed: bands of some width, apart from the ends; transitions within the spectrum
Inside(v) == v[1] > 0 /\ v[Len(v)] < Million /\ \A i \in 1..(Len(v) - 1) : v[i] < v[i + 1]
Designable == /\ ("edges" \in DOMAIN set => Inside(set.edges))
              /\ ({"passRipple", "stopRipple"} \subseteq DOMAIN set => 2 * (set.passRipple[1] + set.stopRipple[1]) <= Million)
              /\ ("width" \in DOMAIN set => 2 * set.width[1] < Million /\ set.width[1] > 0)
(* A frequency of so many quarters of a hertz as a fraction of half the sample rate, in units of 1/100000 *)
IsNormalized(post, quarters, rate) == post \in 0..100001 /\ LET d == 2 * post * rate - 100000 * quarters IN d \in (-2 * rate)..(2 * rate)
=============================================================================
