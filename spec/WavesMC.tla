------------------------------- MODULE WavesMC -------------------------------
(* Tones sample by sample: their laws *)
EXTENDS Waves, TLC
CONSTANTS Rates, Freqs, Phases, Parts, Last0
F == {-3, 0, 1, 2, 5}
Q == {-9, -8, -1, 0, 3, 8}
VARIABLES rate, freq, phase, part, k, ones
all == <<mem, rate, freq, phase, part, k, ones>>
\* Phases are numerators of eighths of a turn, parts of quarters.
Ph(i) == Tone(rate, <<freq, 2>>, <<phase, 8>>, i)
D == <<part, 4>>
MInit == Init /\ rate \in Rates /\ freq \in Freqs /\ phase \in Phases /\ part \in Parts /\ k = 0 /\ ones = 0
MSample == k < Last0 /\ k' = k + 1 /\ ones' = ones + On(Part(Ph(k)), Ph(k)[2], D) \div One /\ UNCHANGED <<mem, rate, freq, phase, part>>
\* A memory, and part of it written
MReserve == mem = <<>> /\ k = Last0 /\ Reserve(5, 7) /\ UNCHANGED <<rate, freq, phase, part, k, ones>>
MWrite == mem # <<>> /\ k = Last0 /\ Write(1, 3, [i \in 1..3 |-> SawAt(Part(Ph(i - 1)), Ph(i - 1)[2], D)]) /\ UNCHANGED <<rate, freq, phase, part, k, ones>>
MNext == MSample \/ MReserve \/ MWrite
MSpec == MInit /\ [][MNext]_all
Tol == 16
Bounded == LET s == SawAt(Part(Ph(k)), Ph(k)[2], D) IN -One - Tol <= s /\ s <= One + Tol
\* Advancing by whole turns changes nothing: after 2 * rate samples, freq cycles have passed
Periodic == \A kind \in {"sine", "sawtooth", "pwm", "square"} : \A v \in Shape(kind, Ph(k + 2 * rate), D, FALSE) : \E w \in Shape(kind, Ph(k), D, FALSE) \cup Shape(kind, Ph(k + 4 * rate), D, FALSE) : Close(v, w, Tol)
\* The same phase, given as time or as initial phase
Same == Shape("sine", Ph(k), D, FALSE) = Shape("sine", Tone(rate, <<0, 1>>, <<Ph(k)[1], Ph(k)[2]>>, 0), D, FALSE)
\* A tilt of a half is the triangle, the same both ways
Triangle == part = 2 => Close(SawAt(Part(Ph(k)), Ph(k)[2], D), SawAt((-Ph(k)[1]) % Ph(k)[2], Ph(k)[2], D), Tol)
\* Duty: of 8 * rate samples, when they meet all phases evenly
Duty == k = 2 * rate /\ freq = 2 /\ phase = 0 /\ rate % 4 = 0 => ones = 2 * ((rate * part) \div 4)
\* A chirp between equal frequencies is a tone
Flat == \A i \in 0..3 : Sine(Chirp(rate, freq, freq, 4, <<phase, 8>>, i)) = Sine(Tone(rate, <<freq, 1>>, <<phase, 8>>, i))
\* and its phase at the end is that of the mean frequency
Mean == LET c == Chirp(rate, freq, freq + 2, 4, <<phase, 8>>, 4) t == Tone(rate, <<freq + 1, 1>>, <<phase, 8>>, 4) IN c[1] * t[2] = t[1] * c[2]
Guarded == mem # <<>> => mem[1] = 7 /\ mem[5] = 7
Spaces == \A size \in 1..5, closed \in BOOLEAN : LET s == Steps(size, closed) IN
    /\ LinNum(freq, phase, size, closed, 0) = freq * s
    /\ (closed /\ size > 1 => LinNum(freq, phase, size, closed, size - 1) = phase * s)
    /\ (~closed => LinNum(freq, phase, size, closed, size) = phase * s)
    /\ LET v(i) == LogValue(-1, 2, 1, size, closed, i, Ln2) IN \A i \in 1..(size - 2) : Close(FMul(v(i) \div 2, v(i) \div 2), FMul(v(i - 1) \div 2, v(i + 1) \div 2), 64)
=============================================================================
