----------------------------- MODULE ResponsesMC -----------------------------
(* Laws of the transforms on every small response, and the frame of the memory. *)
EXTENDS Responses, TLC
CONSTANTS MaxTaps, Values, Tol, Shifts
VARIABLES h, prev, last
allVars == <<re, im, h, prev, last>>
SmallValues == {-3, 0, 2}
DeepValues == {-3, 2, 5}
SomeShifts == {<<0, 1>>, <<1, 2>>, <<1, 3>>, <<4, 5>>}
U == One \div 8
RECURSIVE Total(_, _)
Total(s, k) == IF k = 0 THEN 0 ELSE s[k] + Total(s, k - 1)
Sum(s) == Total(s, Len(s))
Sym(s) == \A k \in 1..Len(s) : s[k] = s[Len(s) + 1 - k]
Same(s, t, tol) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : Close(s[k], t[k], tol)
Times(s, c) == [k \in 1..Len(s) |-> c * s[k]]
MInit == Init /\ h = <<>> /\ prev = <<>> /\ last = <<>>
MTap == last = <<>> /\ Len(h) < MaxTaps /\ \E v \in Values : h' = Append(h, v * U) /\ UNCHANGED <<re, im, prev, last>>
MFill == h # <<>> /\ last = <<>> /\ Fill(<<5, 6>> \o h \o [k \in 1..(Len(h) + 3) |-> 7], <<>>) /\ prev' = re' /\ last' = <<"fill">> /\ UNCHANGED h
MTransform == last = <<"fill">> /\ \E kind \in Kinds : \E m \in {Len(h), (Len(h) + 1) \div 2} : \E to \in {2, Len(h) + 3} : \E a \in (IF kind = "shift" THEN Shifts ELSE {<<0, 1>>}) :
              /\ (to = 2 => kind # "even") /\ Transform(kind, 2, Len(h), to, m, a) /\ prev' = re /\ last' = <<kind, to, m, a>> /\ UNCHANGED h
MNext == MTap \/ MFill \/ MTransform
MSpec == MInit /\ [][MNext]_allVars
\* Cells outside of the result are as they were, and results are the same in place and apart.
Frame == Len(last) = 4 => /\ Len(re) = Len(prev) /\ \A k \in 1..Len(re) : (k <= last[2] \/ k > last[2] + last[3]) => re[k] = prev[k]
                          /\ Same(SubSeq(re, last[2] + 1, last[2] + last[3]), Result(last[1], h, One, last[4]), 0)
Involutions == Same(Mirror(Mirror(h)), h, 0) /\ (Len(h) % 2 = 1 => Same(Complement(Complement(h, One), One), h, 0))
\* Gains at zero frequency and at the highest one
Gains == /\ (Len(h) % 2 = 1 => Sum(Complement(h, One)) = One - Sum(h))
         /\ Sum(Mirror(Mirror(h))) = Sum(h)
         /\ (Len(h) % 2 = 1 /\ Len(h) % 4 = 1 => Same(Mirror(Complement(h, One)), Complement(Mirror(h), One), 0))
Symmetry == Sym(h) => /\ (Len(h) % 2 = 1 => Sym(Mirror(h)) /\ Sym(Complement(h, One)) /\ Same(Odd(h), Times([k \in 1..Len(h) |-> Odd(h)[Len(h) + 1 - k]], -1), 0))
                      /\ \A a \in Shifts : Sym(Shift(h, a))
Carriers == /\ Same(Shift(h, <<0, 1>>), Times(h, 2), Tol)
            /\ (Len(h) % 4 = 1 => Same(Shift(h, <<1, 1>>), Times(Mirror(h), 2), Tol))
            /\ (Len(h) % 4 = 3 => Same(Shift(h, <<1, 1>>), Times(Mirror(h), -2), Tol))
            /\ \A a \in Shifts : Same(Shift(h, a), Shift(h, <<a[1] + 2 * a[2], a[2]>>), Tol) /\ Same(Shift(h, a), Shift(h, <<-a[1], a[2]>>), Tol)
\* What is left of a half-band filter by both Hilbert conversions
Hilbert == \A k \in 1..Len(h) : (k - Centre(h)) % 2 = 0 => Odd(h)[k] = 0
HilbertEven == Len(h) % 4 = 3 => \A k \in 1..((Len(h) + 1) \div 2) : FAbs(Even(h)[k]) = 2 * FAbs(h[2 * k - 1])
=============================================================================
