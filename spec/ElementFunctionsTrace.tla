----------------------- MODULE ElementFunctionsTrace -----------------------
EXTENDS ElementFunctions, Trace
TInit == Init /\ l = 1
TBegin == IsOp("Begin") /\ x' = Empty /\ o' = Empty
TLoad == IsOp("Load") /\ Load(E.mem.x, E.mem.o)
Post == x' = E.mem.x /\ o' = E.mem.o
TInto == IsOp("Into") /\ Post /\ Into(E.f, E.off, E.n, E.ooff)
TInPlace == IsOp("InPlace") /\ Post /\ InPlace(E.f, E.off, E.n)
TValue == IsOp("Value") /\ Post /\ Value(E.f, E.off, E.n)
TNext == TBegin \/ TLoad \/ TInto \/ TInPlace \/ TValue
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
