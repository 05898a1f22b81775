-------------------------- MODULE ConvolutionTrace --------------------------
EXTENDS Convolution, Trace

TInit == Init /\ l = 1
TBegin == IsOp("Begin") /\ mem' = [u |-> Empty, v |-> Empty, o |-> Empty]
TLoad == IsOp("Load") /\ Load(E.mem)
TConv == IsOp("Conv") /\ ConvolveInto(E.mode, E.pos, E.len, E.off, E.clear) /\ mem' = E.mem
TConvValue == IsOp("ConvValue") /\ ConvolveValue(E.mode, E.off, E.len) /\ mem' = E.mem
TOverlapAdd == IsOp("Ola") /\ OverlapAddInto(E.mode, E.pos, E.len, E.off, E.clear, E.chunk) /\ mem' = E.mem
TOverlapAddValue == IsOp("OlaValue") /\ OverlapAddValue(E.mode, E.off, E.len, E.chunk) /\ mem' = E.mem
TLength == IsOp("Length") /\ E.full = FullLength(E.lu, E.lv) /\ E.central = CentralLength(E.lu, E.lv) /\ UNCHANGED mem
TRefuse == IsOp("Refuse") /\ Refuse(E.mode, E.len, E.off, E.chunk) /\ E.outcome \in {"abort", "throw"}
TNext == TBegin \/ TLoad \/ TConv \/ TConvValue \/ TOverlapAdd \/ TOverlapAddValue \/ TLength \/ TRefuse
TSpec == TInit /\ [][TNext]_<<mem, l>>
=============================================================================
