---------------------------- MODULE FactoredPoly ----------------------------
(* Factored polynomials as editable objects. *)
EXTENDS Polys

VARIABLE objs     \* a sequence of objects; one that was moved from or not created yet is Unknown

Unknown == [real |-> <<-1>>, re |-> <<>>, im |-> <<0>>]    \* no polynomial has fewer pairs than imaginary parts
Known(k) == k \in DOMAIN objs /\ objs[k] # Unknown
Put(k, f) == objs' = [objs EXCEPT ![k] = f]
Init == objs = <<Unknown, Unknown, Unknown>>

(* The first n elements, filled up with v *)
Fit(s, n, v) == [k \in 1..n |-> IF k <= Len(s) THEN s[k] ELSE v]

Default(k) == Put(k, NoRoots)

(* roots: a sequence of Gaussian integers *)
Closed(roots) == \A k \in 1..Len(roots) :
    Cardinality({j \in 1..Len(roots) : roots[j] = roots[k]}) = Cardinality({j \in 1..Len(roots) : roots[j] = <<roots[k][1], -roots[k][2]>>})
OfRoots(roots) ==
    LET up == SelectSeq(roots, LAMBDA r : r[2] > 0)
        re == SelectSeq(roots, LAMBDA r : r[2] = 0)
    IN  [real |-> [k \in 1..Len(re) |-> re[k][1]], re |-> [k \in 1..Len(up) |-> up[k][1]], im |-> [k \in 1..Len(up) |-> up[k][2]]]
FromRoots(k, roots) == Closed(roots) /\ Put(k, OfRoots(roots))
RefuseRoots(roots) == ~Closed(roots) /\ UNCHANGED objs

Resize(k, nr, nc, rv, cv) == Known(k) /\
    Put(k, [real |-> Fit(objs[k].real, nr, rv), re |-> Fit(objs[k].re, nc, cv[1]), im |-> Fit(objs[k].im, nc, cv[2])])
CanRegroup(f, nr) == nr <= NumRoots(f) /\ nr % 2 = NumRoots(f) % 2
Regroup(k, nr, rv, cv) == Known(k) /\ CanRegroup(objs[k], nr) /\
    LET nc == (NumRoots(objs[k]) - nr) \div 2 IN
    Put(k, [real |-> Fit(objs[k].real, nr, rv), re |-> Fit(objs[k].re, nc, cv[1]), im |-> Fit(objs[k].im, nc, cv[2])])
RefuseRegroup(k, nr) == Known(k) /\ ~CanRegroup(objs[k], nr) /\ UNCHANGED objs

SetReal(k, i, v) == Known(k) /\ i < Len(objs[k].real) /\ Put(k, [objs[k] EXCEPT !.real[i + 1] = v])
SetPair(k, i, v) == Known(k) /\ i < Len(objs[k].re) /\ Put(k, [objs[k] EXCEPT !.re[i + 1] = v[1], !.im[i + 1] = v[2]])
Copy(from, to) == Known(from) /\ Put(to, objs[from])
Move(from, to) == Known(from) /\ from # to /\ objs' = [objs EXCEPT ![to] = objs[from], ![from] = Unknown]
(* What was moved from remains a polynomial: without roots, or with those its target had before. *)
MayRemain(f, to) == f = NoRoots \/ f = objs[to]

(* Replacing every root (both members of the pairs) by its images under a function that commutes with conjugation:     *)
(* r + a, a r + b, {r + a, r + b} or {r + a i, r - a i}.                                                               *)
AllRoots(f) == [k \in 1..Len(f.real) |-> <<f.real[k], 0>>] \o [k \in 1..Len(f.re) |-> <<f.re[k], f.im[k]>>]
               \o [k \in 1..Len(f.re) |-> <<f.re[k], -f.im[k]>>]
Images(m, r) == CASE m[1] = "shift" -> <<CAdd(r, <<m[2], 0>>)>>
                  [] m[1] = "scale" -> <<<<m[2] * r[1] + m[3], m[2] * r[2]>>>>
                  [] m[1] = "split" -> <<CAdd(r, <<m[2], 0>>), CAdd(r, <<m[3], 0>>)>>
                  [] m[1] = "twin" -> <<CAdd(r, <<0, m[2]>>), CAdd(r, <<0, -m[2]>>)>>
MapRoots(f, m) == FlattenSeq([k \in 1..NumRoots(f) |-> Images(m, AllRoots(f)[k])] \o <<>>)
(* There are as many sets of further roots as the wanted number of roots exceeds the present one. *)
MapRootsPadded(f, m, num, pad) == MapRoots(f, m) \o FlattenSeq([k \in 1..(num - NumRoots(f)) |-> pad] \o <<>>)
SameRoots(s, t) == Len(s) = Len(t) /\ \A k \in DOMAIN s :
    Cardinality({j \in DOMAIN s : s[j] = s[k]}) = Cardinality({j \in DOMAIN t : t[j] = s[k]})
(* The product over the roots that turns into a gain *)
RootProduct(f, a) == FoldLeft(LAMBDA y, r : CMul(y, CAdd(r, <<a, 0>>)), <<1, 0>>, AllRoots(f))

----------------------------------------------------------------------------
WellFormed == \A k \in DOMAIN objs : Known(k) => Len(objs[k].re) = Len(objs[k].im)
Degree == \A k \in DOMAIN objs : Known(k) => LET p == Expand(objs[k]) IN Len(p) = NumRoots(objs[k]) + 1 /\ p[Len(p)] = 1
SameValue == \A k \in DOMAIN objs : Known(k) => \A x \in {<<0, 0>>, <<2, 0>>, <<-1, 0>>, <<1, 1>>, <<0, -2>>} :
    PolyAt(Expand(objs[k]), x) = FactoredAt(objs[k], x)
=============================================================================
