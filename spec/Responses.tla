------------------------------ MODULE Responses ------------------------------
(* Transforms of impulse responses that lie in a memory.  Values are fixed-point numbers (Fixed.tla), real and imaginary  *)
(* parts apart; im is empty for real numbers.                                                                             *)
EXTENDS Fixed
VARIABLES re, im
vars == <<re, im>>
Kinds == {"mirror", "complement", "shift", "odd", "even"}

(* The defining formulas; tap k of 1..n *)
Centre(h) == Len(h) \div 2 + 1
Mirror(h) == [k \in 1..Len(h) |-> IF k % 2 = 1 THEN h[k] ELSE -h[k]]
\* Unit impulse at the centre less the response
Complement(h, unit) == [k \in 1..Len(h) |-> (IF k = Centre(h) THEN unit ELSE 0) - h[k]]
\* Taps at both ends share the carrier of the first one: 2 cos(pi f d) at distance d, f = a[1] / a[2]
Shift(h, a) == [k \in 1..Len(h) |-> IF k = Centre(h) /\ Len(h) % 2 = 1 THEN 2 * h[k]
                                    ELSE LET d == Centre(h) - (IF k < Centre(h) THEN k ELSE Len(h) + 1 - k)
                                         IN 2 * FMul(CosT(a[1] * d, 2 * a[2]), h[k])]
\* What is even distances from the centre vanishes; what is odd ones away is doubled with alternating signs, negative to the left.
Kernel(d) == IF d % 2 = 0 THEN 0 ELSE IF d % 4 = 1 THEN 2 ELSE -2
Odd(h) == [k \in 1..Len(h) |-> Kernel(k - Centre(h)) * h[k]]
\* The others of these
Even(h) == LET o == Odd(h) IN [k \in 1..((Len(h) + 1) \div 2) |-> o[2 * k - 1]]
Result(kind, h, unit, a) == CASE kind = "mirror" -> Mirror(h) [] kind = "complement" -> Complement(h, unit) [] kind = "shift" -> Shift(h, a)
                            [] kind = "odd" -> Odd(h) [] OTHER -> Even(h)
\* Lengths that a transform is there for, of response and result
Defined(kind, n, m) == CASE kind = "complement" -> n % 2 = 1 /\ m = n [] kind = "odd" -> n % 2 = 1 /\ m = n
                       [] kind = "even" -> m % 2 = 0 /\ n = 2 * m - 1 [] OTHER -> m = n

(* Actions *)
Init == re = <<>> /\ im = <<>>
Fill(r, i) == re' = r /\ im' = i
Put(s, off, v) == [k \in 1..Len(s) |-> IF k > off /\ k <= off + Len(v) THEN v[k - off] ELSE s[k]]
\* The response at from..from+n-1 into to..to+m-1; in place, or apart.
NewRe(kind, from, n, to, a) == Put(re, to, Result(kind, SubSeq(re, from + 1, from + n), One, a))
NewIm(kind, from, n, to, a) == IF im = <<>> THEN im ELSE Put(im, to, Result(kind, SubSeq(im, from + 1, from + n), 0, a))
Transform(kind, from, n, to, m, a) == Defined(kind, n, m) /\ re' = NewRe(kind, from, n, to, a) /\ im' = NewIm(kind, from, n, to, a)
=============================================================================
