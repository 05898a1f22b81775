--------------------------- MODULE FirStreamTrace ---------------------------
EXTENDS FirStream, Trace
Nil == Real(<<>>)
TInit == taps = Nil /\ state = Nil /\ past = Nil /\ written = Nil /\ out = Nil /\ l = 1
TBegin == IsOp("Begin") /\ taps' = Nil /\ state' = Nil /\ past' = Nil /\ written' = Nil /\ out' = Nil
TStart == IsOp("Start") /\ Start(E.taps, E.state)
(* The recorded output, state after the block, and the inputs after the call. *)
TBlock == /\ IsOp("Block") /\ Size(taps) >= 1
          /\ Block(E.x)
          /\ out' = E.post.out /\ state' = E.post.state /\ taps' = E.post.taps /\ E.post.x = E.x
(* The whole input at once from the initial state *)
TWhole == /\ IsOp("Whole") /\ Size(taps) >= 1
          /\ E.post.out = written /\ E.post.state = state /\ UNCHANGED vars
TRefuse == IsOp("Refuse") /\ Refuse(E.stateSize, E.inSize, E.outSize) /\ E.outcome \in {"abort", "throw"}
TNext == TBegin \/ TStart \/ TBlock \/ TWhole \/ TRefuse
TSpec == TInit /\ [][TNext]_<<vars, l>>
(* Evaluated where a session is complete. *)
Complete == (l > 1 /\ l <= Len(Trace) + 1 /\ Trace[l - 1].op = "Whole") => CutInvariance /\ StateIsLastInputs
=============================================================================
