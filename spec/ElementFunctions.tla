------------------------- MODULE ElementFunctions ---------------------------
(* Element-wise functions of a range of a buffer x into a range of a buffer o (or of x itself).  All values are in units *)
(* of 1e-5.  The elements of x are points of the grid of FunctionTable. *)
EXTENDS Signals, FunctionTable

VARIABLES x, o
vars == <<x, o>>
Empty == Real(<<>>)
Init == x = Empty /\ o = Empty
Load(sx, so) == x' = sx /\ o' = so

(* The value of function f at a grid point: <<re, im>>, or <<>> where it is not defined (poles, branch cuts). *)
RealIndex(re) == re \div 12500 + 41
ComplexIndex(re, im) == (re \div 50000 + 4) * 9 + im \div 50000 + 5
OnGrid(re, im, isreal) == IF isreal THEN re % 12500 = 0 /\ re \in -500000..500000 /\ im = 0
                          ELSE re % 50000 = 0 /\ im % 50000 = 0 /\ re \in -200000..200000 /\ im \in -200000..200000
At(f, re, im, isreal) == IF isreal THEN RealTable[f][RealIndex(re)] ELSE ComplexTable[f][ComplexIndex(re, im)]
Knows(f, isreal) == f \in (IF isreal THEN DOMAIN RealTable ELSE DOMAIN ComplexTable)
(* Domain of f as grid numbers, for the generator *)
Points(f, isreal) == IF isreal THEN {k \in -40..40 : RealTable[f][k + 41] # <<>>} ELSE {k \in 0..80 : ComplexTable[f][k + 1] # <<>>}
(* Functions that keep exact values exact *)
Exact(f) == f \in {"real", "imag", "conj"}

Close(f, got, want, size) == IF Exact(f) THEN got = want ELSE IF got > want + 1000000 THEN FALSE ELSE IF got < want - 1000000 THEN FALSE ELSE
    Abs(got - want) <= 2 + size \div 40000
Near(f, re, im, v) == LET size == Max2(Abs(v[1]), Abs(v[2])) IN Close(f, re, v[1], size) /\ Close(f, im, v[2], size)

InRange(s, off, n) == off >= 0 /\ off + n <= Size(s)
IsDefined(f, off, n) == /\ InRange(x, off, n) /\ Knows(f, IsReal(x))
    /\ \A k \in 1..n : LET im == ImOf(x)[off + k] IN OnGrid(x.r[off + k], im, IsReal(x)) /\ At(f, x.r[off + k], im, IsReal(x)) # <<>>
Values(f, off, n, s, soff) == \A k \in 1..n : Near(f, s.r[soff + k], ImOf(s)[soff + k], At(f, x.r[off + k], ImOf(x)[off + k], IsReal(x)))
(* Signal t is signal s except in the range. *)
SameOutside(s, t, off, n) == Size(s) = Size(t) /\ IsReal(s) = IsReal(t)
    /\ \A k \in 1..Size(s) : (k <= off \/ k > off + n) => s.r[k] = t.r[k] /\ ImOf(s)[k] = ImOf(t)[k]

(* f of x[off..off+n) into o[ooff..ooff+n) *)
Into(f, off, n, ooff) == IsDefined(f, off, n) /\ InRange(o, ooff, n) /\ x' = x /\ SameOutside(o, o', ooff, n) /\ Values(f, off, n, o', ooff)
(* f of x[off..off+n) in its place *)
InPlace(f, off, n) == IsDefined(f, off, n) /\ o' = o /\ SameOutside(x, x', off, n) /\ Values(f, off, n, x', off)
(* f of x[off..off+n) as a new signal, here o *)
Value(f, off, n) == IsDefined(f, off, n) /\ x' = x /\ Size(o') = n /\ (~IsReal(o') => Len(o'.i) = n) /\ Values(f, off, n, o', 0)
=============================================================================
