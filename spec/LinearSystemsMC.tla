--------------------------- MODULE LinearSystemsMC ---------------------------
EXTENDS LinearSystems, TLC
CONSTANT MaxReal
Roots == {-1, 2}
RootSets == [real : UNION {[1..n -> Roots] : n \in 0..MaxReal}, re : {<<>>}, im : {<<>>}]
            \cup {[real |-> r, re |-> <<-1>>, im |-> <<2>>] : r \in UNION {[1..n -> Roots] : n \in 0..(MaxReal - 1)}}
Angles == {<<3, 4>>, <<-4, 3>>, <<0, 5>>}       \* with hypotenuse 5
Before(a, b) == a[1] > b[1]
DoDefine == sub = Identity /\ \E g \in {-2, 1}, z, p \in RootSets, k \in {"continuous", "discrete"} : Define(g, z, p, k)
DoBilinear == sub = Identity /\ \E k \in {1, 3} : Bilinear(k)
Fresh == Degree(sub) = 1 /\ sub \in {Identity, BilinearMap(1), BilinearMap(3)}
DoLow == Fresh /\ \E w \in Angles : TransformBand(LowMap(w[1], w[2], 5))
DoHigh == Fresh /\ \E w \in Angles : TransformBand(HighMap(w[1], w[2], 5))
DoBand == Fresh /\ \E w1, w2 \in Angles, pass \in BOOLEAN : Before(w1, w2) /\ TransformBand(BandMap(pass, w1[1], w1[2], w2[1], w2[2], 5))
MCNext == DoDefine \/ DoBilinear \/ DoLow \/ DoHigh \/ DoBand
MCSpec == Init /\ [][MCNext]_vars

Points == {<<0, 0>>, <<1, 0>>, <<-1, 0>>, <<2, 0>>, <<0, 1>>, <<1, -1>>}
(* The expanded form has the value of the factored one. *)
TransferIsValue == sub = Identity => \A z \in Points :
    LET q == ValueAt(z) IN
    (* multiplied by the same power of the substitution's denominator, which is one *)
    PolyAt(Transfer.num, z) = q.n /\ PolyAt(Transfer.den, z) = q.d
(* A transformed system has as many zeros as poles, and never fewer than the original. *)
Balanced == sub # Identity => ZeroCount = PoleCount /\ PoleCount >= NumRoots(base.poles)

(* Laws of the substitutions: which points go where.  Equality of fractions by cross-multiplication. *)
At(f, x, y) == \* the fraction at the Gaussian rational x / y: numerator and denominator
    LET n == Max2(Len(f.u), Len(f.v)) - 1
        h(p) == FoldLeft(LAMBDA acc, k : CAdd(acc, CScale(p[k], CMul(CPow(x, k - 1), CPow(y, n + 1 - k)))), <<0, 0>>, [k \in 1..Len(p) |-> k])
    IN  <<h(f.u), h(f.v)>>
Goes(f, x, y, to) == LET a == At(f, x, y) IN a[1] = CMul(to, a[2]) /\ a[2] # <<0, 0>>
ASSUME \A w \in Angles :
    LET on == <<w[1], w[2]>>  m == <<5, 0>>  one == <<1, 0>> IN
    /\ Goes(LowMap(w[1], w[2], 5), on, m, <<0, 1>>) /\ Goes(LowMap(w[1], w[2], 5), one, one, one)
    /\ Goes(LowMap(w[1], w[2], 5), <<-1, 0>>, one, <<-1, 0>>)
    /\ Goes(HighMap(w[1], w[2], 5), on, m, <<0, -1>>) /\ Goes(HighMap(w[1], w[2], 5), one, one, <<-1, 0>>)
    /\ Goes(HighMap(w[1], w[2], 5), <<-1, 0>>, one, one)
ASSUME \A w1, w2 \in Angles : Before(w1, w2) =>
    LET m == <<5, 0>>  one == <<1, 0>>
        p == BandMap(TRUE, w1[1], w1[2], w2[1], w2[2], 5)
        q == BandMap(FALSE, w1[1], w1[2], w2[1], w2[2], 5) IN
    /\ Goes(p, w1, m, <<0, -1>>) /\ Goes(p, w2, m, <<0, 1>>) /\ Goes(p, one, one, <<-1, 0>>) /\ Goes(p, <<-1, 0>>, one, <<-1, 0>>)
    /\ Goes(q, w1, m, <<0, 1>>) /\ Goes(q, w2, m, <<0, -1>>) /\ Goes(q, one, one, one) /\ Goes(q, <<-1, 0>>, one, one)
ASSUME \A k \in 1..3 : Goes(BilinearMap(k), <<0, 1>>, <<1, 0>>, <<0, k>>) /\ Goes(BilinearMap(k), <<1, 0>>, <<1, 0>>, <<0, 0>>)
(* Substituting one after the other equals substituting the composition. *)
ASSUME \A w \in Angles, z \in Points :
    LET f == LowMap(w[1], w[2], 5)
        a == At(Compose(BilinearMap(2), f), z, <<1, 0>>)
        i == At(f, z, <<1, 0>>)
        b == At(BilinearMap(2), i[1], i[2])
    IN  CMul(a[1], b[2]) = CMul(a[2], b[1])
=============================================================================
