------------------------------ MODULE IirTrace ------------------------------
EXTENDS Iir, Trace
TInit == Init /\ l = 1
TBegin == IsOp("Begin") /\ System(<<1>>, <<1>>)
TSystem == /\ IsOp("System") /\ System(E.num, E.den)
           /\ E.order = Max2(Len(E.num), Len(E.den)) - 1
           /\ Top(E.den) # 0
(* The cascade belongs to the same system. *)
TSections == /\ IsOp("Sections")
             /\ SameFromTop(SectionsNum(E.secs), sys.num) /\ SameFromTop(SectionsDen(E.secs), sys.den)
             /\ UNCHANGED vars
TNew == IsOp("New") /\ New(E.id, E.kind, E.order) /\ E.reported = inst'[E.id].order
TReset == IsOp("Reset") /\ Reset(E.id) /\ E.reported = inst'[E.id].order
TReorder == IsOp("Reorder") /\ Reorder(E.id, E.order) /\ E.reported = inst'[E.id].order
TCopy == IsOp("Copy") /\ Copy(E.id, E.to)
TFeed == IsOp("Feed") /\ Feed(E.id, E.x, E.post.y) /\ E.post.x = (IF E.form = "inplace" THEN E.post.y ELSE E.x)
TRefuse == IsOp("Refuse") /\ Refuse(E.id) /\ E.outcome \in {"abort", "throw"}
TNext == TBegin \/ TSystem \/ TSections \/ TNew \/ TReset \/ TReorder \/ TCopy \/ TFeed \/ TRefuse
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
