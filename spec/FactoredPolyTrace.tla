------------------------- MODULE FactoredPolyTrace -------------------------
EXTENDS FactoredPoly, Trace
TInit == Init /\ l = 1
TBegin == IsOp("Begin") /\ objs' = <<Unknown, Unknown, Unknown>>
Post == objs' = E.post       \* all objects as observed after the call
TDefault == IsOp("Default") /\ Default(E.k) /\ Post
TFromRoots == IsOp("FromRoots") /\ FromRoots(E.k, E.roots) /\ Post
TRefuseRoots == IsOp("RefuseRoots") /\ RefuseRoots(E.roots) /\ E.outcome = "throw" /\ Post
TResize == IsOp("Resize") /\ Resize(E.k, E.nr, E.nc, E.rv, E.cv) /\ Post
TRegroup == IsOp("Regroup") /\ Regroup(E.k, E.nr, E.rv, E.cv) /\ Post
TRefuseRegroup == IsOp("RefuseRegroup") /\ RefuseRegroup(E.k, E.nr) /\ E.outcome = "throw" /\ Post
TSetReal == IsOp("SetReal") /\ SetReal(E.k, E.i, E.v) /\ Post
TSetPair == IsOp("SetPair") /\ SetPair(E.k, E.i, E.v) /\ Post
TCopy == IsOp("Copy") /\ Copy(E.k, E.to) /\ Post
TMove == IsOp("Move") /\ Move(E.k, E.to) /\ MayRemain(E.left, E.to) /\ Post
TCounts == /\ IsOp("Counts") /\ Known(E.k)
           /\ E.post = <<NumRoots(objs[E.k]), Len(objs[E.k].real), 2 * Len(objs[E.k].re), Len(objs[E.k].re), NumRoots(objs[E.k])>>
           /\ UNCHANGED objs
TExpand == IsOp("Expand") /\ Known(E.k) /\ E.post = Expand(objs[E.k]) /\ UNCHANGED objs
TEval == /\ IsOp("Eval") /\ Known(E.k)
         /\ E.factored = FactoredAt(objs[E.k], E.x) /\ E.expanded = FactoredAt(objs[E.k], E.x) /\ UNCHANGED objs
TPoly == /\ IsOp("Poly") /\ E.order = Max2(1, Len(E.c)) - 1 /\ E.size = Len(E.c)
         /\ E.post = PolyAt(E.c, E.x) /\ UNCHANGED objs
TMap == /\ IsOp("Map") /\ Known(E.k) /\ UNCHANGED objs
        /\ IF E.outcome = "ok" THEN Closed(E.pad) /\ SameRoots(AllRoots(E.post), MapRootsPadded(objs[E.k], E.m, E.num, E.pad))
           ELSE E.outcome = "throw" /\ ~Closed(E.pad)
TRefuseMap == IsOp("RefuseMap") /\ Known(E.k) /\ Len(objs[E.k].real) > 0 /\ E.outcome = "throw" /\ UNCHANGED objs
TGain == IsOp("Gain") /\ Known(E.k) /\ <<E.post, 0>> = RootProduct(objs[E.k], E.a) /\ UNCHANGED objs
TNext == TBegin \/ TDefault \/ TFromRoots \/ TRefuseRoots \/ TResize \/ TRegroup \/ TRefuseRegroup \/ TSetReal \/ TSetPair
         \/ TCopy \/ TMove \/ TCounts \/ TExpand \/ TEval \/ TPoly \/ TMap \/ TRefuseMap \/ TGain
TSpec == TInit /\ [][TNext]_<<objs, l>>
=============================================================================
