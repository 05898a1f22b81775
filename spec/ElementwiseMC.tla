--------------------------- MODULE ElementwiseMC ---------------------------
EXTENDS Elementwise, TLC
VARIABLE steps
CONSTANTS Values, N, Complex
ValuesA == {-3, 0, 2}
ValuesB == {-1, 2}
Ops == {"add", "sub", "mul", "div"}
Sig == LET s == [1..N -> Values] IN IF Complex THEN [r : s, i : s] ELSE [r : s, i : {<<>>}]
Zero == IF Complex THEN [r |-> ZeroSeq(N), i |-> ZeroSeq(N)] ELSE Real(ZeroSeq(N))
DoLoad == steps = 0 /\ steps' = 1 /\ mem.a = Empty /\ \E a, b \in Sig, t \in BOOLEAN : Load([a |-> a, b |-> b, r |-> Zero], t)
Operands == {[buf |-> x, off |-> o] : x \in {"a", "b"}, o \in 0..1} \cup {[buf |-> "scalar", v |-> <<2, 0>>]}
DoInto == \E op \in Ops, buf \in {"a", "r"}, off \in 0..1, n \in 0..N, x, y \in Operands :
    ~(IsScalar(x) /\ IsScalar(y)) /\ steps = 1 /\ steps' = 2 /\ Into(op, buf, off, n, x, y)
DoValue == \E op \in Ops, n \in 0..N, x, y \in Operands : steps = 1 /\ steps' = 2 /\ Value(op, n, x, y, ~Complex)
DoRefuse == \E lens \in [1..3 -> 0..1] : Refuse(lens) /\ UNCHANGED steps
MCNext == DoLoad \/ DoInto \/ DoValue \/ DoRefuse
MCSpec == Init /\ steps = 0 /\ [][MCNext]_<<vars, steps>>
(* Laws *)
Buf == [buf |-> "a", off |-> 0]
Other == [buf |-> "b", off |-> 0]
Undo == steps = 1 => LET rl == ~Complex IN
    /\ Results("add", N, Buf, Other, rl) = Results("add", N, Other, Buf, rl)
    /\ Results("mul", N, Buf, Other, rl) = Results("mul", N, Other, Buf, rl)
    /\ \A k \in 1..N : CAdd(CSub(Operand(Buf, k), Operand(Other, k)), Operand(Other, k)) = Operand(Buf, k)
    /\ \A k \in 1..N : Operand(Other, k) # <<0, 0>> => CDiv(CMul(Operand(Buf, k), Operand(Other, k)), Operand(Other, k)) = Operand(Buf, k)
Sizes == mem.a # Empty => Size(mem.a) = N /\ Size(mem.b) = N
(* Only the output buffer changes. *)
Frame == [][mem.a # Empty => mem'.b = mem.b]_vars
=============================================================================
