----------------------------- MODULE RationalsMC -----------------------------
(* Field and order laws on small rationals; registers under short histories. *)
EXTENDS Rationals, TLC
CONSTANTS N, Steps
VARIABLE step
Vals == {Norm(p, q) : p \in -N..N, q \in 1..N}
MCInit == reg \in [Regs -> Vals] /\ step = 0
Next1 == step < Steps /\ step' = step + 1
MOp(f) == Next1 /\ \E k \in Regs, a, b \in {1, 2} : Operate(k, f, reg[a], reg[b])
MPlus == MOp("+")
MMinus == MOp("-")
MTimes == MOp("*")
MOver == MOp("/")
MStep == Next1 /\ \E k \in {1}, by \in {-1, 1} : Step(k, by)
MCNext == MPlus \/ MMinus \/ MTimes \/ MOver \/ MStep
MCSpec == MCInit /\ [][MCNext]_<<vars, step>>
Canonical == \A k \in Regs : Lowest(reg[k])
Laws == step = 0 => LET a == reg[1] b == reg[2] c == reg[3] IN
    /\ Sum(a, b) = Sum(b, a) /\ Product(a, b) = Product(b, a) /\ Sum(Sum(a, b), c) = Sum(a, Sum(b, c))
    /\ Product(Product(a, b), c) = Product(a, Product(b, c)) /\ Product(a, Sum(b, c)) = Sum(Product(a, b), Product(a, c))
    /\ Diff(Sum(a, b), b) = a /\ Sum(Diff(a, b), b) = a /\ (b[1] # 0 => Quotient(Product(a, b), b) = a /\ Product(Quotient(a, b), b) = a)
    /\ (Compare(a, b) = 0) = (a = b) /\ Compare(a, b) = -Compare(b, a)
    /\ (Compare(a, b) <= 0 /\ Compare(b, c) <= 0 => Compare(a, c) <= 0)
    /\ Compare(Sum(a, c), Sum(b, c)) = Compare(a, b)
    /\ Sum(Whole(FloorOf(a)), Fraction(a)) = a /\ Compare(Whole(0), Fraction(a)) <= 0 /\ Compare(Fraction(a), Whole(1)) < 0
    /\ CeilOf(a) = -FloorOf(<<-a[1], a[2]>>) /\ CeilOf(a) - FloorOf(a) = (IF a[2] = 1 THEN 0 ELSE 1)
=============================================================================
