------------------------------ MODULE Signals ------------------------------
(* Values shared by the specifications: finite signals of (complex) integers.  A signal is a record [r, i] of the real  *)
(* and the imaginary parts; a signal of a real type has i = <<>>.  Positions in actions are 0-based like in the library, *)
(* TLA+ sequences are 1-based.                                                                                          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

(* Real sequences *)
ZeroSeq(n) == [k \in 1..n |-> 0]
SliceSeq(s, off, n) == [k \in 1..n |-> s[off + k]]
SpliceSeq(s, off, t) == [k \in 1..Len(s) |-> IF k > off /\ k <= off + Len(t) THEN t[k - off] ELSE s[k]]
AddSeq(s, t) == [k \in 1..Len(s) |-> s[k] + t[k]]
DiffSeq(s, t) == [k \in 1..Len(s) |-> s[k] - t[k]]
ReverseSeq(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
IsZeroSeq(s) == \A k \in 1..Len(s) : s[k] = 0

(* Signals *)
Size(s) == Len(s.r)
IsReal(s) == s.i = <<>>
Real(seq) == [r |-> seq, i |-> <<>>]
ImOf(s) == IF IsReal(s) THEN ZeroSeq(Size(s)) ELSE s.i
Slice(s, off, n) == [r |-> SliceSeq(s.r, off, n), i |-> IF IsReal(s) THEN <<>> ELSE SliceSeq(s.i, off, n)]
Splice(s, off, t) == [r |-> SpliceSeq(s.r, off, t.r), i |-> IF IsReal(s) THEN <<>> ELSE SpliceSeq(s.i, off, t.i)]
Reverse1(s) == [r |-> ReverseSeq(s.r), i |-> IF IsReal(s) THEN <<>> ELSE ReverseSeq(s.i)]
Cat(s, t) == [r |-> s.r \o t.r, i |-> s.i \o t.i]
Add(s, t) == [r |-> AddSeq(s.r, t.r), i |-> IF IsReal(s) THEN <<>> ELSE AddSeq(s.i, t.i)]

(* An element of a sum that starts at the 0-based index n *)
ConvAt(u, v, n) ==
    LET lo == Max2(0, n - Len(v) + 1)
        hi == Min2(Len(u) - 1, n)
    IN  IF lo > hi THEN 0 ELSE SumSeq([k \in 1..(hi - lo + 1) |-> u[lo + k] * v[n - lo - k + 2]])
ConvSeq(u, v, off, len) == [j \in 1..len |-> ConvAt(u, v, off + j - 1)]

FullLength(lu, lv) == IF lu = 0 \/ lv = 0 THEN 0 ELSE lu + lv - 1
CentralLength(lu, lv) == IF lu = 0 \/ lv = 0 THEN 0 ELSE Max2(lu, lv) - Min2(lu, lv) + 1
CentralOffset(lu, lv) == Min2(Max2(1, lu), Max2(1, lv)) - 1

(* The window [off, off + len) of the full convolution of two signals *)
ConvWindow(u, v, off, len) ==
    CASE IsReal(u) /\ IsReal(v) -> Real(ConvSeq(u.r, v.r, off, len))
      [] IsReal(u) /\ ~IsReal(v) -> [r |-> ConvSeq(u.r, v.r, off, len), i |-> ConvSeq(u.r, v.i, off, len)]
      [] ~IsReal(u) /\ IsReal(v) -> [r |-> ConvSeq(u.r, v.r, off, len), i |-> ConvSeq(u.i, v.r, off, len)]
      [] OTHER -> [r |-> DiffSeq(ConvSeq(u.r, v.r, off, len), ConvSeq(u.i, v.i, off, len)),
                   i |-> AddSeq(ConvSeq(u.r, v.i, off, len), ConvSeq(u.i, v.r, off, len))]
ConvFull(u, v) == ConvWindow(u, v, 0, FullLength(Size(u), Size(v)))

(* Is x a well-formed signal?  (Recorded data may be anything.) *)
SeqsUpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}
=============================================================================
