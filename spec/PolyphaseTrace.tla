-------------------------- MODULE PolyphaseTrace ---------------------------
EXTENDS Polyphase, Trace
TInit == Init /\ l = 1
After == \A k \in Ids : objs'[k].n > 0 => Seen(E.post[k], objs'[k])
TBegin == IsOp("Begin") /\ objs' = [k \in Ids |-> Unknown]
TDefault == IsOp("Default") /\ Default(E.k, E.real) /\ After
TConstruct == IsOp("Construct") /\ Construct(E.k, E.l, E.n, E.real) /\ After
TDecompose == IsOp("Decompose") /\ Decompose(E.k, E.h, E.n) /\ After
TCopy == IsOp("Copy") /\ Copy(E.a, E.b) /\ After
TMove == IsOp("Move") /\ Move(E.a, E.b) /\ After
TNormalize == IsOp("Normalize") /\ Normalize(E.k) /\ After
TNormalizeCopy == IsOp("NormalizeCopy") /\ NormalizeCopy(E.a, E.b) /\ After
TWrite == IsOp("Write") /\ Write(E.k, E.p, E.j, E.v) /\ After
TFill == IsOp("Fill") /\ Fill(E.k, E.v) /\ After
\* Decomposing into memory of the caller: the phases, and all of that memory before and after the addressed part
TInto == IsOp("Into") /\ Seen(E.post, Decomposed(E.h, E.n)) /\ E.before = E.after /\ E.kept = E.h /\ UNCHANGED vars
TNext == TBegin \/ TDefault \/ TConstruct \/ TDecompose \/ TCopy \/ TMove \/ TNormalize \/ TNormalizeCopy \/ TWrite \/ TFill \/ TInto
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
