------------------------------ MODULE EllipticMC ------------------------------
(* Laws of the elliptic functions over a grid of moduli and arguments *)
EXTENDS Elliptic, TLC
CONSTANTS Moduli, Points, Grid, Tol
VARIABLES u, v
mvars == <<modulus, u, v>>
MInit == Init /\ u = <<>> /\ v = <<>>
\* k' = i / 64
MModulus == u = <<>> /\ v = <<>> /\ UNCHANGED <<u, v>> /\ \E i \in Moduli :
    LET kp == FFrac(i, 64) IN modulus # <<Root(One - FSq(kp)), kp>> /\ Modulus(Root(One - FSq(kp)), kp, 40)
MArgument == u = <<>> /\ UNCHANGED <<modulus, v>> /\ \E i \in -Points..Points : u' = <<i * (One \div Grid)>>
MSecond == Len(u) = 1 /\ UNCHANGED <<modulus, v>> /\ \E i \in -Points..Points : u' = Append(u, i * (One \div Grid))
MEvaluate == Len(u) = 1 /\ v = <<>> /\ UNCHANGED u /\ v' = SnCnDn(u[1], modulus) /\ UNCHANGED modulus
MNext == MModulus \/ MArgument \/ MSecond \/ MEvaluate
MSpec == MInit /\ [][MNext]_mvars
One1 == Len(u) = 1
Two == Len(u) = 2
k == modulus[1]
k2 == FSq(modulus[1])
Sum(a, b, s, t) == \* Numerators and denominator of the addition theorem
    <<FMul(s[1], FMul(t[2], t[3])) + FMul(t[1], FMul(s[2], s[3])), FMul(s[2], t[2]) - FMul(FMul(s[1], s[3]), FMul(t[1], t[3])), FMul(s[3], t[3]) - FMul(k2, FMul(FMul(s[1], s[2]), FMul(t[1], t[2]))),
      One - FMul(k2, FMul(FSq(s[1]), FSq(t[1])))>>
Addition == Two => LET s == SnCnDn(u[1], modulus) t == SnCnDn(u[2], modulus) w == SnCnDn(u[1] + u[2], modulus) n == Sum(u[1], u[2], s, t)
                   IN \A i \in 1..3 : Close(FMul(w[i], n[4]), n[i], Tol)
Squares == v # <<>> => Close(FSq(v[1]) + FSq(v[2]), One, Tol) /\ Close(FSq(v[3]) + FMul(k2, FSq(v[1])), One, Tol)
Odd == v # <<>> => Alike(SnCnDn(-u[1], modulus), <<-v[1], v[2], v[3]>>, Tol)
Periodic == v # <<>> /\ modulus[2] > 0 => LET c == Complete(modulus[2]) IN
    /\ Alike(SnCnDn(c, modulus), <<One, 0, modulus[2]>>, Tol)
    /\ (FAbs(u[1]) < 2 * One /\ c < 2 * One => Alike(SnCnDn(u[1] + 2 * c, modulus), <<-v[1], -v[2], v[3]>>, Tol))
    /\ Close(RF(0, FSq(modulus[2]), One), c, Tol)
\* sn(u) = v: v R_F(1 - v^2, 1 - k^2 v^2, 1) = u on the first quarter
Inverse == v # <<>> /\ modulus[2] > 0 /\ 0 <= u[1] /\ u[1] <= Complete(modulus[2]) =>
    Close(FMul(v[1], RF(FSq(v[2]), FSq(v[3]), One)), u[1], 8 * Tol)
Carlsons == v # <<>> /\ modulus[2] > 0 => LET a == FSq(v[2]) b == FSq(v[3]) IN
    /\ Close(RF(a, b, One), RF(One, a, b), Tol)
    /\ (a > 0 => Close(RF(a \div 4, b \div 4, One \div 4) \div 2, RF(a, b, One), Tol))
\* Complex: the squares, and real and imaginary arguments
Complex == Two => LET s == SnCnDn(u[1], modulus) t == SnCnDn(u[2], Swap(modulus)) z == ComplexOf(s, t, k) IN
    Known(s, t, k) => /\ Close(FSq(z[1][1]) - FSq(z[1][2]) + FSq(z[2][1]) - FSq(z[2][2]), One, 8 * Tol)
                      /\ Close(FMul(z[1][1], z[1][2]) + FMul(z[2][1], z[2][2]), 0, 8 * Tol)
                      /\ Close(FSq(z[3][1]) - FSq(z[3][2]) + FMul(k2, FSq(z[1][1]) - FSq(z[1][2])), One, 8 * Tol)
                      /\ (u[2] = 0 => Alike2(z, <<<<s[1], 0>>, <<s[2], 0>>, <<s[3], 0>>>>, Tol))
                      /\ (u[1] = 0 => Close(FMul(z[1][2], t[2]), t[1], Tol))
\* No other values are accepted.
Exact == v # <<>> => LET w == [v EXCEPT ![1] = @ + 4 * Tol] IN
    /\ ~Alike(w, SnCnDn(u[1], modulus), Tol)
    /\ (FAbs(u[1]) > One \div 4 /\ k > One \div 2 => ~Alike(v, <<SinCos(u[1])[1], SinCos(u[1])[2], One>>, Tol))
=============================================================================
