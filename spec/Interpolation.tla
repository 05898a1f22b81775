---------------------------- MODULE Interpolation ----------------------------
(* Interpolating a stream by a whole rate n, in runs.  The stream x is not known as a whole: a run sees its samples     *)
(* [first, avail) and continues the output at position pos.                                                            *)
EXTENDS Signals

VARIABLES x, h, n,
          pos,            \* the next output sample
          first, start    \* where to continue: the first input sample that is needed, the next output sample from there
vars == <<x, h, n, pos, first, start>>
Nil == Real(<<>>)
Init == x = Nil /\ h = Nil /\ n = 1 /\ pos = 0 /\ first = 0 /\ start = 0
Begin(sx, sh, rate) == x' = sx /\ h' = sh /\ n' = rate /\ pos' = 0 /\ first' = 0 /\ start' = 0

(* Each sample followed by rate - 1 zeros; every rate-th sample *)
ExpandSeq(s, rate) == [k \in 1..(Len(s) * rate) |-> IF (k - 1) % rate = 0 THEN s[((k - 1) \div rate) + 1] ELSE 0]
Expanded(s, rate) == [r |-> ExpandSeq(s.r, rate), i |-> IF IsReal(s) THEN <<>> ELSE ExpandSeq(s.i, rate)]
DecimateSeq(s, rate) == [k \in 1..((Len(s) + rate - 1) \div rate) |-> s[(k - 1) * rate + 1]]
Decimated(s, rate) == [r |-> DecimateSeq(s.r, rate), i |-> IF IsReal(s) THEN <<>> ELSE DecimateSeq(s.i, rate)]
Amplified(s, c) == [r |-> [k \in 1..Len(s.r) |-> c * s.r[k]], i |-> [k \in 1..Len(s.i) |-> c * s.i[k]]]

Interpolated(s, f, rate, off, len) == ConvWindow(Expanded(s, rate), Amplified(f, rate), off, len)
FullOf(ls, lf, rate) == FullLength(ls * rate, lf)
CentralOf(ls, lf, rate) == CentralLength(ls * rate, lf)

(* A run over the samples before avail: all output up to the last sample's zeros can be had, and the tail once avail is the end. *)
MaxRun(avail) == (IF avail = Size(x) THEN FullOf(Size(x), Size(h), n) ELSE avail * n) - pos
Run(avail, len, y, f, s) ==
    /\ first < avail /\ avail <= Size(x) /\ len <= MaxRun(avail) /\ Size(h) > 0
    /\ y = Interpolated(x, h, n, pos, len)
    /\ pos' = pos + len
    \* Continuing there is continuing here, with all the history that the filter needs.
    /\ f >= 0 /\ s >= 0 /\ f <= Size(x) + Size(h) /\ f * n + s = pos + len /\ (f = 0 \/ s >= Size(h) - 1)
    /\ first' = f /\ start' = s /\ UNCHANGED <<x, h, n>>
=============================================================================
