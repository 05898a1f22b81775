------------------------------ MODULE Intervals ------------------------------
(* Half-open intervals <<first, last>> with whole ends, as the sets of unit steps they cover.  `cur' is an interval that *)
(* is moved along. *)
EXTENDS Integers, Sequences
VARIABLE cur
vars == <<cur>>
Init == cur = <<0, 0>>
Points(i) == i[1]..(i[2] - 1)
Proper(i) == i[1] <= i[2]
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Moved(i, d) == <<i[1] + d, i[2] + d>>
Hull(a, b) == <<Min(a[1], b[1]), Max(a[2], b[2])>>
Disjoint(a, b) == Points(a) \cap Points(b) = {}
IsMeet(x, a, b) == Points(x) = Points(a) \cap Points(b) /\ Proper(x)
\* A union is an interval if its parts share points; nothing otherwise.
IsUnion(x, a, b) == IF Disjoint(a, b) THEN x = <<>> ELSE x = Hull(a, b)
(* Actions *)
Load(i) == cur' = i
Shift(d) == cur' = Moved(cur, d)
Size(i) == i[2] - i[1]
=============================================================================
