-------------------------------- MODULE Waves --------------------------------
(* Generated waves and spaces.  A phase is a fraction <<p, q>> of turns.  A sample may be either side of a jump that its   *)
(* phase lies on (phases are rounded), except where the phase is zero exactly.                                           *)
EXTENDS Fixed
VARIABLES mem
vars == <<mem>>
\* The phase at sample k of a tone: f[1] / f[2] cycles per second, at rate samples per second, from phase p0
Tone(rate, f, p0, k) == <<k * f[1] * p0[2] + p0[1] * rate * f[2], rate * f[2] * p0[2]>>
\* The frequency moves linearly from f to g (integers) over the size of the output.
Chirp(rate, f, g, size, p0, k) == <<(2 * size * k * f + k * k * (g - f)) * p0[2] + 2 * size * rate * p0[1], 2 * size * rate * p0[2]>>
Part(ph) == ph[1] % ph[2]                     \* of ph[2]: position in the turn
\* Shape values at position r of q, as sets: tilt and fill are fractions.
Sine(ph) == {SinT(ph[1], ph[2])}
\* Rises from -1 to 1 up to the tilt, falls back after it
SawAt(r, q, t) == IF r * t[2] > t[1] * q THEN 2 * FFrac((q - r) * t[2], q * (t[2] - t[1])) - One
                  ELSE IF t[1] = 0 THEN One ELSE 2 * FFrac(r * t[2], q * t[1]) - One
Saw(ph, t, exact) == LET r == Part(ph) IN IF r = 0 /\ ~exact /\ (t[1] = 0 \/ t[1] = t[2]) THEN {-One, One} ELSE {SawAt(r, ph[2], t)}
On(r, q, d) == IF r * d[2] < d[1] * q \/ d[1] >= d[2] THEN One ELSE 0
Edge(ph, d, exact) == d[1] < d[2] /\ d[1] > 0 /\ ~exact /\ (Part(ph) = 0 \/ Part(ph) * d[2] = d[1] * ph[2])
Pwm(ph, d, exact) == IF Edge(ph, d, exact) THEN {0, One} ELSE {On(Part(ph), ph[2], d)}
Square(ph, exact) == {2 * v - One : v \in Pwm(ph, <<1, 2>>, exact)}
Shape(kind, ph, a, exact) == CASE kind = "sine" -> Sine(ph) [] kind = "sawtooth" -> Saw(ph, a, exact) [] kind = "pwm" -> Pwm(ph, a, exact) [] OTHER -> Square(ph, exact)
\* Without any rounding
ExactAt(p0, k) == k = 0 /\ p0[1] = 0

(* n points from a to b (integers), with or without the latter, as fractions over Steps *)
Max1(v) == IF v < 1 THEN 1 ELSE v
Steps(size, closed) == Max1(IF closed THEN size - 1 ELSE size)
LinNum(a, b, size, closed, k) == a * Steps(size, closed) + k * (b - a)
\* base ^ (that / scale), where lnBase is the logarithm of the base
LogValue(a, b, scale, size, closed, k, lnBase) == FExp(FMul(lnBase, FFrac(LinNum(a, b, size, closed, k), scale * Steps(size, closed))))

(* Actions: a memory, and ranges of it being written *)
Init == mem = <<>>
Reserve(size, v) == mem' = [k \in 1..size |-> v]
\* The samples at off + 1 .. off + size become s
Write(off, size, s) == mem' = [k \in 1..Len(mem) |-> IF k > off /\ k <= off + size THEN s[k - off] ELSE mem[k]]
=============================================================================
