-------------------------- MODULE FactoredPolyGen --------------------------
(* Random behaviours of FactoredPoly, as plans for the harness: each step is a sequence of numbers. *)
EXTENDS FactoredPoly, TLC, Json, Randomization
CONSTANTS Steps
VARIABLES plan, done
R(S) == RandomElement(S)
Ids == 1..3
Roots == {<<0, 0>>, <<3, 0>>, <<-2, 0>>, <<1, 1>>, <<1, -1>>, <<-2, 3>>, <<-2, -3>>}
Op(s) == plan' = Append(plan, s) /\ UNCHANGED done
GDefault == \E k \in Ids : Default(k) /\ Op(<<0, k>>)
\* Drawn values are bound by quantifiers over singletons; definitions would draw again at each use.
RandRoots(n) == [i \in 1..n |-> R(Roots)]
GFromRoots == \E k \in Ids : \E n \in {R(0..6)} : \E r \in {RandRoots(n)} :
    IF Closed(r) THEN FromRoots(k, r) /\ Op(<<1, k, n>> \o FlattenSeq(r)) ELSE RefuseRoots(r) /\ Op(<<2, k, n>> \o FlattenSeq(r))
GPairs == \E k \in Ids : \E n \in {R(1..3)} : \E h \in {RandRoots(n)} :
    LET r == h \o [i \in 1..n |-> <<h[i][1], -h[i][2]>>] IN FromRoots(k, r) /\ Op(<<1, k, 2 * n>> \o FlattenSeq(r))
GResize == \E k \in Ids : \E nr \in {R(0..6)} : \E nc \in {R(0..5)} : \E v \in {R(-3..3)} : \E p \in {<<R(-3..3), R(1..3)>>} :
    Resize(k, nr, nc, v, p) /\ Op(<<3, k, nr, nc, v, p[1], p[2]>>)
GRegroup == \E k \in Ids : \E nr \in {R(0..10)} : \E v \in {R(-3..3)} : \E p \in {<<R(-3..3), R(1..3)>>} : Known(k) /\
    IF CanRegroup(objs[k], nr) THEN Regroup(k, nr, v, p) /\ Op(<<4, k, nr, v, p[1], p[2]>>) ELSE RefuseRegroup(k, nr) /\ Op(<<5, k, nr>>)
GSetReal == \E k \in Ids : \E i \in {R(0..5)} : \E v \in {R(-5..5)} : SetReal(k, i, v) /\ Op(<<6, k, i, v>>)
GSetPair == \E k \in Ids : \E i \in {R(0..4)} : \E v \in {<<R(-5..5), R(1..4)>>} : SetPair(k, i, v) /\ Op(<<7, k, i, v[1], v[2]>>)
GCopy == \E a, b \in Ids : Copy(a, b) /\ \E how \in 0..1 : (how = 1 => Known(b)) /\ Op(<<8, a, b, how>>)
GMove == \E a, b \in Ids : Move(a, b) /\ \E how \in 0..1 : (how = 1 => Known(b)) /\ Op(<<9, a, b, how>>)
GStep == GDefault \/ GFromRoots \/ GPairs \/ GResize \/ GRegroup \/ GSetReal \/ GSetPair \/ GCopy \/ GMove
GInit == Init /\ plan = <<>> /\ done = FALSE
GNext == \/ Len(plan) < Steps /\ GStep
         \/ Len(plan) = Steps /\ ~done /\ done' = TRUE /\ UNCHANGED <<objs, plan>>
GSpec == GInit /\ [][GNext]_<<objs, plan, done>>
Emit == done => PrintT("VPGEN" \o ToJson(plan))
=============================================================================
