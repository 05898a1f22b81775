-------------------------- MODULE ElementwiseTrace --------------------------
EXTENDS Elementwise, Trace
TInit == Init /\ l = 1
TBegin == IsOp("Begin") /\ mem' = [a |-> Empty, b |-> Empty, r |-> Empty] /\ int' = FALSE
TLoad == IsOp("Load") /\ Load(E.mem, E.int)
TInto == IsOp("Into") /\ Into(E.f, E.buf, E.off, E.n, E.x, E.y) /\ mem' = E.mem
TValue == IsOp("Value") /\ Value(E.f, E.n, E.x, E.y, E.real) /\ mem' = E.mem
TRefuse == IsOp("Refuse") /\ Refuse(E.lens) /\ E.outcome \in {"abort", "throw"}
TNext == TBegin \/ TLoad \/ TInto \/ TValue \/ TRefuse
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
