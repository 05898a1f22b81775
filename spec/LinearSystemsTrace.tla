------------------------- MODULE LinearSystemsTrace -------------------------
EXTENDS LinearSystems, Trace
TInit == Init /\ l = 1
Same == UNCHANGED vars
TBegin == IsOp("Begin") /\ base' = Trivial /\ sub' = Identity /\ kind' = "discrete"
TSystem == IsOp("System") /\ Define(E.gain, E.zeros, E.poles, E.kind)
TBilinear == IsOp("Bilinear") /\ Bilinear(E.k)
TBand == IsOp("Band") /\ TransformBand(CASE E.which = "low" -> LowMap(E.w[1], E.w[2], E.m)
                                         [] E.which = "high" -> HighMap(E.w[1], E.w[2], E.m)
                                         [] E.which = "pass" -> BandMap(TRUE, E.w[1], E.w[2], E.w[3], E.w[4], E.m)
                                         [] OTHER -> BandMap(FALSE, E.w[1], E.w[2], E.w[3], E.w[4], E.m))
TOrders == /\ IsOp("Orders") /\ Same
           /\ E.post = <<ZeroCount, PoleCount, Max2(ZeroCount, PoleCount), ZeroCount, PoleCount, Max2(ZeroCount, PoleCount)>>
                       \o (IF kind = "discrete" THEN <<Max2(ZeroCount, PoleCount)>> ELSE <<>>)
TTransfer == IsOp("Transfer") /\ Same /\ sub = Identity /\ E.post = Transfer
TCascade == IsOp("Cascade") /\ Same /\ sub = Identity /\ Moderate(E.post) /\ Cascade(E.post) = Transfer
TEval == IsOp("Eval") /\ Same /\ \A k \in 1..Len(E.post) : IsValue(E.post[k], E.scale, E.z)
(* With pre-warping, the discrete system at the pre-warped frequency has the value of the continuous one. *)
TPrewarp == IsOp("Prewarp") /\ Same /\ sub = Identity /\ kind = "continuous" /\ IsValue(E.post, E.scale, <<0, E.w>>)
TNext == TBegin \/ TSystem \/ TBilinear \/ TBand \/ TOrders \/ TTransfer \/ TCascade \/ TEval \/ TPrewarp
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
