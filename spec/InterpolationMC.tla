-------------------------- MODULE InterpolationMC --------------------------
(* Every way of cutting short streams into runs, where each run uses only the samples from its first on, with the        *)
(* tightest and the loosest suspension points. *)
EXTENDS Interpolation, TLC
CONSTANTS Xs, Hs, Rates, Lens
VARIABLES out
MCInit == Init /\ out = <<>>
MBegin == x = Nil /\ \E sx \in Xs, sh \in Hs, rate \in Rates : Begin(Real(sx), Real(sh), rate) /\ out' = <<>>
\* The suspension point that needs the fewest samples
Tight(p) == LET o == p - (Size(h) - 1) IN IF o < 0 THEN <<0, p>> ELSE <<o \div n, (o % n) + Size(h) - 1>>
Cut == [r |-> SubSeq(x.r, first + 1, Size(x)), i |-> <<>>]
MRun(tight) == x # Nil /\ \E avail \in (first + 1)..Size(x), len \in Lens :
    /\ len <= MaxRun(avail) /\ (len > 0 \/ avail = Size(x))
    /\ LET p == pos + len
           t == IF tight THEN Tight(p) ELSE <<0, p>>
           \* What is computed from the remaining samples that are there
           part == [r |-> SubSeq(x.r, first + 1, avail), i |-> <<>>]
           y == Interpolated(part, h, n, start, len)
       IN  Run(avail, len, y, t[1], t[2]) /\ out' = out \o y.r
MTight == MRun(TRUE)
MLoose == MRun(FALSE)
\* A run of what can be had is never refused: cutting the input loses nothing.
MRunPossible == x # Nil => \A avail \in first..Size(x), len \in Lens : len <= MaxRun(avail) =>
    Interpolated([r |-> SubSeq(x.r, first + 1, avail), i |-> <<>>], h, n, start, len) = Interpolated(x, h, n, pos, len)
MCNext == MBegin \/ MTight \/ MLoose
MCSpec == MCInit /\ [][MCNext]_<<vars, out>>
Same == x # Nil => out = Interpolated(x, h, n, 0, Len(out)).r
\* Decimating undoes expanding; rate one filters.
Laws == x # Nil => /\ Decimated(Expanded(x, n), n) = x /\ Size(Decimated(x, n)) = (Size(x) + n - 1) \div n
                   /\ Interpolated(x, h, 1, 0, FullOf(Size(x), Size(h), 1)) = ConvFull(x, h)
XsA == {<<>>, <<3>>, <<1, -2>>, <<2, 5, -1>>, <<1, 4, -3, 2>>}
HsA == {<<2>>, <<1, 3>>, <<1, -1, 2>>, <<2, 1, 3, -1>>, <<1, 2, 3, 4, 5>>}
XsB == XsA \cup {<<1, 2, -3, 4, 5>>}
HsB == HsA \cup {<<1, -2, 3, -4, 5, 6, 7>>}
=============================================================================
