------------------------------- MODULE BigMC -------------------------------
(* The big integers agree with TLC's. *)
EXTENDS Big, TLC
VARIABLES a, b
Vals == {-46340, -40000, -10001, -10000, -9999, -577, -1, 0, 1, 2, 7, 9999, 10000, 10001, 20000, 39999, 46340}
ToInt(x) == LET m == FoldRight(LAMBDA d, acc : acc * 10000 + d, x.mag, 0) IN IF x.neg THEN -m ELSE m
Init == a \in Vals /\ b \in Vals
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
Agree == LET x == BigOf(a) y == BigOf(b) IN
    /\ ToInt(x) = a /\ ToInt(Plus(x, y)) = a + b /\ ToInt(Minus(x, y)) = a - b
    /\ (Times(x, y).mag # <<>> /\ (a > -40001 /\ b > -40001) => ToInt(Times(x, y)) = a * b)
    /\ Cmp(x, y) = (IF a < b THEN -1 ELSE IF a = b THEN 0 ELSE 1)
    /\ Plus(x, Neg(x)) = Zero /\ Times(x, One) = x /\ Times(x, Zero) = Zero
    /\ LET s == Times(x, x) t == Times(y, y) IN
          \* (x + y)(x - y) = x^2 - y^2, beyond 32 bits
          /\ Times(Times(Plus(x, y), Minus(x, y)), s) = Minus(Times(s, s), Times(s, t))
          /\ Power(Plus(x, y), 3) = Plus(Plus(Times(s, x), TimesI(Times(s, y), 3)), Plus(TimesI(Times(x, t), 3), Times(t, y)))
    /\ NearRat(a, 1, RatI(a), 0) /\ (b > 0 => NearRat(a, b, Rat(x, y), 0)) /\ (b > 0 => REq(Rat(x, y), Rat(Times(x, y), Times(y, y))))
    /\ NearRoot(a, 1, Rat(Times(x, x), One), 2, IF a < 0 THEN -1 ELSE 1, 0)
    /\ (a > 5 => ~NearRoot(a, 1, Rat(Times(x, x), One), 2, -1, 1) /\ ~NearRoot(a + 2, 1, Rat(Times(x, x), One), 2, 1, 1))
=============================================================================
