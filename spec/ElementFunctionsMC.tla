------------------------ MODULE ElementFunctionsMC ------------------------
(* The table is checked against functional equations, the machine for its frame conditions. *)
EXTENDS ElementFunctions, TLC
VARIABLES k, f
R(g, j) == RealTable[g][j + 41][1]
Def(g, j) == j \in -40..40 /\ RealTable[g][j + 41] # <<>>
(* Equality of two numbers up to rounding of the table, relative to a magnitude *)
Eq(a, b, tol) == Abs(a - b) <= tol
Pi == 314159
\* Products are taken with three digits removed.
Mul(a, b) == ((a \div 100) * (b \div 100)) \div 10
Even(g) == \A j \in 0..40 : Def(g, j) /\ Def(g, -j) => R(g, j) = R(g, -j)
Odd(g) == \A j \in 0..40 : Def(g, j) /\ Def(g, -j) => R(g, j) = -R(g, -j)
Parity == /\ \A g \in {"abs", "cos", "cosh", "pow0", "pow2", "pow4", "powm2"} : Even(g)
          /\ \A g \in {"real", "cbrt", "sin", "tan", "asin", "atan", "sinh", "tanh", "asinh", "atanh", "erf", "pow1", "pow3", "pow5", "powm1"} : Odd(g)
Small(a) == Abs(a) <= 4000000
Equations == \A j \in -40..40 :
    /\ Def("log", j) => (2 * j <= 40 => Eq(R("log2", 2 * j), R("log2", j) + 100000, 2) /\ Eq(R("log", 2 * j), R("log", j) + 69315, 2)
                                       /\ Eq(R("log10", 2 * j), R("log10", j) + 30103, 2))
    /\ Eq(2 * R("sinh", j), R("exp", j) - R("exp", -j), 3) /\ Eq(2 * R("cosh", j), R("exp", j) + R("exp", -j), 3)
    /\ Eq(Mul(R("sin", j), R("sin", j)) + Mul(R("cos", j), R("cos", j)), 100000, 500)
    /\ Eq(Mul(R("tan", j), R("cos", j)), R("sin", j), 4000)
    /\ (Def("asin", j) => Eq(R("asin", j) + R("acos", j), Pi \div 2, 2))
    /\ Eq(R("erf", j) + R("erfc", j), 100000, 1)
    /\ (Def("tgamma", j) /\ Def("tgamma", j + 8) => Eq(8 * R("tgamma", j + 8), j * R("tgamma", j), 30 + Abs(j)))
    /\ (j > 0 /\ j <= 32 => Eq(R("lgamma", j + 8), R("lgamma", j) + R("log", j), 3))
    /\ (j < 0 /\ Def("lgamma", j) /\ j + 8 < 0 => Eq(R("lgamma", j + 8), R("lgamma", j) + R("log", -j), 3))
    /\ (Def("sqrt", j) => Eq(Mul(R("sqrt", j), R("sqrt", j)), R("real", j), 600) /\ R("powh1", j) = R("sqrt", j) /\ R("sqrt", j) >= 0)
    /\ (j > 0 => Eq(8 * R("powh1", j), j * R("powhm1", j), 60) /\ Eq(8 * R("powh3", j), j * R("powh1", j), 60) /\ Eq(8 * R("powh5", j), j * R("powh3", j), 60)
                 /\ Eq(8 * R("powhm1", j), j * R("powhm3", j), 60))
    /\ R("pow0", j) = 100000 /\ R("pow1", j) = R("real", j) /\ R("real", j) = 12500 * j /\ R("abs", j) = 12500 * Abs(j) /\ R("imag", j) = 0
    /\ \A p \in 1..4 : LET n == <<"pow1", "pow2", "pow3", "pow4", "pow5">> IN IF Abs(R(n[p + 1], j)) > 50000000 THEN TRUE ELSE Eq(8 * R(n[p + 1], j), j * R(n[p], j), 60)
    /\ (j # 0 => Eq(j * R("powm1", j), 800000, 60) /\ Eq(j * R("powm2", j), 8 * R("powm1", j), 60))
    /\ Eq(Mul(R("tanh", j), Min2(R("cosh", j), 2000000)), IF R("cosh", j) <= 2000000 THEN R("sinh", j) ELSE Mul(R("tanh", j), 2000000), 4000)
Cubes == \A j \in -40..40 : LET c == R("cbrt", j) IN Eq(Mul(Mul(c, c), c), R("real", j), 3000)
(* Inverse functions on points where the grid is hit: slopes of the inverse against the function *)
Monotone == \A j \in -40..39 :
    /\ \A g \in {"exp", "cbrt", "atan", "sinh", "asinh", "erf", "tanh", "log", "log2", "log10", "sqrt", "asin", "acosh", "atanh"} :
          Def(g, j) /\ Def(g, j + 1) => R(g, j) <= R(g, j + 1)
    /\ (Def("acos", j) /\ Def("acos", j + 1) => R("acos", j) > R("acos", j + 1))
(* Complex: conjugation, the real axis, exp = cosh + sinh, cos and sin by rotation *)
C(g, u, v) == ComplexTable[g][(u + 4) * 9 + v + 5]
CDef(g, u, v) == C(g, u, v) # <<>>
Analytic == {"log", "log10", "exp", "sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "pow2", "powh1"}
Complex == \A u, v \in -4..4 :
    /\ \A g \in Analytic : v # 0 /\ CDef(g, u, v) /\ CDef(g, u, -v) => C(g, u, v)[1] = C(g, u, -v)[1] /\ C(g, u, v)[2] = -C(g, u, -v)[2]
    /\ \A g \in Analytic \ {"pow2", "powh1"} : CDef(g, u, 0) /\ Def(g, 4 * u) => C(g, u, 0) = <<R(g, 4 * u), 0>>
    /\ \A c \in 1..2 : Eq(C("exp", u, v)[c], C("cosh", u, v)[c] + C("sinh", u, v)[c], 2)
    /\ Eq(C("sin", u, v)[1], C("sinh", -v, u)[2], 1) /\ Eq(C("sin", u, v)[2], -C("sinh", -v, u)[1], 1)
    /\ C("cos", u, v) = C("cosh", -v, u)
    /\ C("real", u, v) = <<50000 * u, 0>> /\ C("imag", u, v) = <<50000 * v, 0>> /\ C("conj", u, v) = <<50000 * u, -50000 * v>>
    /\ (CDef("log", u, v) => C("log", u, v)[2] = C("arg", u, v)[1] /\ (CDef("sqrt", u, v) => C("sqrt", u, v)[1] >= 0))
    /\ (CDef("pow2", u, v) => C("pow2", u, v) = <<25000 * (u * u - v * v), 50000 * u * v>>)
    /\ (CDef("powh1", u, v) => C("powh1", u, v) = C("sqrt", u, v)
        /\ LET s == C("sqrt", u, v) IN Eq(Mul(s[1], s[1]) - Mul(s[2], s[2]), 50000 * u, 800) /\ Eq(2 * Mul(s[1], s[2]), 50000 * v, 800))
    /\ (CDef("asin", u, v) /\ CDef("acos", u, v) => Eq(C("asin", u, v)[1] + C("acos", u, v)[1], Pi \div 2, 2) /\ Eq(C("asin", u, v)[2], -C("acos", u, v)[2], 1))
Laws == Parity /\ Equations /\ Cubes /\ Monotone /\ Complex
ASSUME Laws

(* The machine on signals of two elements *)
Sig == {Real(<<12500 * a, 12500 * b>>) : a, b \in {-3, 4}}
Outs == {Real(<<1, 2, 3>>), Real(<<>>)}
\* Results are drawn from what the table says.
Res(off, n) == [j \in 1..n |-> RealTable[f][RealIndex(x.r[off + j])][1]]
MInit == Init /\ k = 0 /\ f = "exp"
MLoad == k = 0 /\ \E a \in Sig, b \in Outs, g \in {"exp", "sin", "abs"} : Load(a, b) /\ f' = g /\ k' = 1
MInto == k = 1 /\ \E off, n, ooff \in 0..3 : off + n <= 2 /\ ooff + n <= Size(o) /\ o' = Splice(o, ooff, Real(Res(off, n))) /\ Into(f, off, n, ooff) /\ k' = 2 /\ UNCHANGED f
MInPlace == k = 1 /\ \E off, n \in 0..2 : off + n <= 2 /\ x' = Splice(x, off, Real(Res(off, n))) /\ InPlace(f, off, n) /\ k' = 2 /\ UNCHANGED f
MValue == k = 1 /\ \E off, n \in 0..2 : off + n <= 2 /\ o' = Real(Res(off, n)) /\ Value(f, off, n) /\ k' = 2 /\ UNCHANGED f
MNext == MLoad \/ MInto \/ MInPlace \/ MValue
MCSpec == MInit /\ [][MNext]_<<vars, k, f>>
OneBuffer == [][k = 1 => x' = x \/ o' = o]_<<vars, k, f>>
=============================================================================
