---------------------------- MODULE Elementwise ----------------------------
(* Element-wise arithmetic between ranges of the buffers a, b, r and scalars.                                           *)
EXTENDS Signals

VARIABLES mem,       \* [a, b, r]
          int        \* are the elements integers (division rounds towards zero)?
vars == <<mem, int>>
Empty == Real(<<>>)
Init == mem = [a |-> Empty, b |-> Empty, r |-> Empty] /\ int = FALSE
Load(m, t) == mem' = m /\ int' = t

(* Complex numbers <<re, im>> *)
CMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
CAdd(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CSub(x, y) == <<x[1] - y[1], x[2] - y[2]>>
Norm2(y) == y[1] * y[1] + y[2] * y[2]
Conj(y) == <<y[1], -y[2]>>
Trunc(x, y) == LET q == Abs(x) \div Abs(y) IN IF (x < 0) = (y < 0) THEN q ELSE -q
(* Quotients are exact here, except for integers. *)
Divisible(x, y) == y # <<0, 0>> /\ LET p == CMul(x, Conj(y)) IN p[1] % Norm2(y) = 0 /\ p[2] % Norm2(y) = 0
CDiv(x, y) == LET p == CMul(x, Conj(y)) IN <<Trunc(p[1], Norm2(y)), Trunc(p[2], Norm2(y))>>
Result(op, x, y) == CASE op = "add" -> CAdd(x, y) [] op = "sub" -> CSub(x, y) [] op = "mul" -> CMul(x, y) [] OTHER -> CDiv(x, y)
Defined(op, x, y) == IF op # "div" THEN TRUE ELSE IF int THEN y[1] # 0 ELSE Divisible(x, y)

(* Operands: a range of a buffer, or a scalar *)
Elem(s, k) == <<s.r[k], IF IsReal(s) THEN 0 ELSE s.i[k]>>
IsScalar(x) == x.buf = "scalar"
InBuffer(x, n) == IF IsScalar(x) THEN TRUE ELSE x.off + n <= Size(mem[x.buf])
Operand(x, k) == IF IsScalar(x) THEN x.v ELSE Elem(mem[x.buf], x.off + k)
Ranges(op, n, x, y) == InBuffer(x, n) /\ InBuffer(y, n) /\ \A k \in 1..n : Defined(op, Operand(x, k), Operand(y, k))
Results(op, n, x, y, real) ==
    LET q == [k \in 1..n |-> Result(op, Operand(x, k), Operand(y, k))]
    IN  [r |-> [k \in 1..n |-> q[k][1]], i |-> IF real THEN <<>> ELSE [k \in 1..n |-> q[k][2]]]

(* The results go to n elements of a buffer, which may be those of an operand. *)
Into(op, buf, off, n, x, y) == Ranges(op, n, x, y) /\ off + n <= Size(mem[buf]) /\ UNCHANGED int
    /\ mem' = [mem EXCEPT ![buf] = Splice(@, off, Results(op, n, x, y, IsReal(@)))]
(* The results as a new signal, here stored as r *)
Value(op, n, x, y, real) == Ranges(op, n, x, y) /\ UNCHANGED int /\ mem' = [mem EXCEPT !.r = Results(op, n, x, y, real)]
(* Different lengths *)
Refuse(lens) == (\E i, j \in 1..Len(lens) : lens[i] # lens[j]) /\ UNCHANGED vars
=============================================================================
