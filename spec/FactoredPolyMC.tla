--------------------------- MODULE FactoredPolyMC ---------------------------
EXTENDS FactoredPoly, TLC
CONSTANTS MaxReal, MaxPairs, Values
ValuesA == {-1, 2}
Pairs == {<<v, 1>> : v \in Values}
Ids == {1, 2}
MCInit == objs = <<Unknown, Unknown>>
DoDefault == \E k \in Ids : Default(k)
DoFromRoots == \E k \in Ids, n \in 0..3 : \E r \in [1..n -> {<<1, 0>>, <<-1, 2>>, <<-1, -2>>}] : FromRoots(k, r)
DoRefuseRoots == \E n \in 0..3 : \E r \in [1..n -> {<<1, 0>>, <<-1, 2>>, <<-1, -2>>}] : RefuseRoots(r)
DoResize == \E k \in Ids, nr \in 0..MaxReal, nc \in 0..MaxPairs, v \in Values, p \in Pairs : Resize(k, nr, nc, v, p)
DoRegroup == \E k \in Ids, nr \in 0..MaxReal, v \in Values, p \in Pairs : Known(k) /\ (NumRoots(objs[k]) - nr) \div 2 <= MaxPairs /\ Regroup(k, nr, v, p)
DoRefuseRegroup == \E k \in Ids, nr \in 0..(MaxReal + 2) : RefuseRegroup(k, nr)
DoSet == \E k \in Ids, i \in 0..1, v \in Values : SetReal(k, i, v) \/ SetPair(k, i, <<v, 1>>)
DoCopy == \E a, b \in Ids : Copy(a, b)
DoMove == \E a, b \in Ids : Move(a, b)
MCNext == DoDefault \/ DoFromRoots \/ DoRefuseRoots \/ DoResize \/ DoRegroup \/ DoRefuseRegroup \/ DoSet \/ DoCopy \/ DoMove
MCSpec == MCInit /\ [][MCNext]_objs
Bounded == \A k \in Ids : Known(k) => Len(objs[k].real) <= MaxReal /\ Len(objs[k].re) <= MaxPairs
(* Regrouping keeps the number of roots; at most one object changes unless one is moved. *)
Frame == [][DoRegroup => \A k \in Ids : (Known(k) => NumRoots(objs'[k]) = NumRoots(objs[k]))]_objs
RootsAt(roots, x) == FoldLeft(LAMBDA y, r : CMul(y, CAdd(x, <<-r[1], -r[2]>>)), <<1, 0>>, roots)
RECURSIVE IntPower(_, _)
IntPower(a, n) == IF n = 0 THEN 1 ELSE a * IntPower(a, n - 1)
Points == {<<0, 0>>, <<2, 0>>, <<1, 1>>, <<0, -2>>}
Less(x, y) == CAdd(x, <<-y[1], -y[2]>>)
(* Mapping the roots substitutes the variable. *)
Mapping == \A k \in Ids : Known(k) => \A x \in Points :
    LET f == objs[k]
        At(y) == FactoredAt(f, y)
        Of(m) == RootsAt(MapRoots(f, m), x)
    IN  /\ RootsAt(AllRoots(f), x) = At(x)
        /\ Of(<<"shift", 3, 0>>) = At(Less(x, <<3, 0>>))
        /\ RootsAt(MapRoots(f, <<"scale", -2, 1>>), <<1 - 2 * x[1], -2 * x[2]>>) = CMul(<<IntPower(-2, NumRoots(f)), 0>>, At(x))
        /\ Of(<<"split", 1, -1>>) = CMul(At(Less(x, <<1, 0>>)), At(Less(x, <<-1, 0>>)))
        /\ Of(<<"twin", 2, 0>>) = CMul(At(Less(x, <<0, 2>>)), At(Less(x, <<0, -2>>)))
        /\ Closed(MapRoots(f, <<"twin", 1, 0>>)) /\ SameRoots(MapRoots(f, <<"shift", 0, 0>>), AllRoots(f))
        /\ RootProduct(f, 2) = CMul(<<IntPower(-1, NumRoots(f)), 0>>, At(<<-2, 0>>))
=============================================================================
