------------------------------ MODULE Polyphase ------------------------------
(* Polyphase decompositions as objects with memory of their own: every object is its number of phases and the taps of   *)
(* each phase, latest tap first.  Taps are in units of 1 / Unit.                                                        *)
EXTENDS Signals

Unit == 64
Ids == 1..3
Unknown == [n |-> 0, phases |-> <<>>]       \* not constructed, or moved from
VARIABLES objs
vars == <<objs>>
Init == objs = [k \in Ids |-> Unknown]
Known(k) == objs[k].n > 0
Put(k, o) == objs' = [objs EXCEPT ![k] = o]

\* Phase p (from 0) of l taps in n phases has the taps p, p + n, p + 2n, ...
PhaseLen(l, n, p) == IF p < l THEN (l - p - 1) \div n + 1 ELSE 0
PhaseSeq(h, n, p) == LET m == PhaseLen(Len(h), n, p) IN [j \in 1..m |-> Unit * n * h[p + (m - j) * n + 1]]
PhaseOf(h, n, p) == [r |-> PhaseSeq(h.r, n, p), i |-> IF IsReal(h) THEN <<>> ELSE PhaseSeq(h.i, n, p)]
Decomposed(h, n) == [n |-> n, phases |-> [p \in 1..n |-> PhaseOf(h, n, p - 1)]]
Zeros(l, n, real) == [n |-> n, phases |-> [p \in 1..n |-> LET z == ZeroSeq(PhaseLen(l, n, p - 1)) IN [r |-> z, i |-> IF real THEN <<>> ELSE z]]]
Blank(real) == Zeros(0, 1, real)

(* The filter an object came from, its taps multiplied by the number of phases *)
Taps(o) == SumSeq([p \in 1..o.n |-> Size(o.phases[p])])
Interleaved(o) == [t \in 1..Taps(o) |-> LET p == ((t - 1) % o.n) + 1 IN o.phases[p].r[Len(o.phases[p].r) - ((t - 1) \div o.n)]]
PerPhase(o) == FoldLeft(LAMBDA m, f : Max2(m, Size(f)), 0, o.phases)

(* Dividing phases by their sums, where the outcome is in whole units *)
Whole(f) == f.r = <<>> \/ (SumSeq(f.r) # 0 /\ SumSeq(ImOf(f)) = 0
                           /\ \A x \in ToSet(f.r) \cup ToSet(f.i) : (x * Unit) % Abs(SumSeq(f.r)) = 0)
Divide(x, s) == IF s < 0 THEN (-(x * Unit)) \div (-s) ELSE (x * Unit) \div s
Normal(f) == LET s == SumSeq(f.r) IN [r |-> [j \in 1..Len(f.r) |-> Divide(f.r[j], s)], i |-> [j \in 1..Len(f.i) |-> Divide(f.i[j], s)]]
Normalizable(o) == \A p \in 1..o.n : Whole(o.phases[p])
Normalized(o) == [o EXCEPT !.phases = [p \in 1..o.n |-> Normal(o.phases[p])]]

(* Actions *)
Default(k, real) == Put(k, Blank(real))
Construct(k, l, n, real) == Put(k, Zeros(l, n, real))
Decompose(k, h, n) == Put(k, Decomposed(h, n))
Copy(a, b) == Known(a) /\ Put(b, objs[a])
Move(a, b) == Known(a) /\ a # b /\ objs' = [objs EXCEPT ![b] = objs[a], ![a] = Unknown]
Normalize(k) == Known(k) /\ Normalizable(objs[k]) /\ Put(k, Normalized(objs[k]))
NormalizeCopy(a, b) == Known(a) /\ Normalizable(objs[a]) /\ Put(b, Normalized(objs[a]))
\* The real part of tap j of phase p (from 0) is written, in units.
Write(k, p, j, v) == Known(k) /\ p < objs[k].n /\ j < Size(objs[k].phases[p + 1])
                     /\ objs' = [objs EXCEPT ![k].phases[p + 1].r[j + 1] = v]
\* All taps are written through the object's memory.
Fill(k, v) == Known(k) /\ Put(k, [objs[k] EXCEPT !.phases = [p \in 1..objs[k].n |-> LET f == objs[k].phases[p] IN
                  [r |-> [j \in 1..Len(f.r) |-> v], i |-> [j \in 1..Len(f.i) |-> 0]]]])

(* What is seen of an object: its counts, the content and the place in its memory of every phase *)
Covers(at, o) == UNION {{at[p] + j : j \in 0..Size(o.phases[p]) - 1} : p \in 1..o.n} = 0..Taps(o) - 1
Seen(x, o) == /\ x.n = o.n /\ x.size = Taps(o) /\ x.per = PerPhase(o)
              /\ x.phases = o.phases /\ Len(x.at) = o.n /\ Covers(x.at, o)
=============================================================================
