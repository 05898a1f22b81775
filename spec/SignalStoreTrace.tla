-------------------------- MODULE SignalStoreTrace --------------------------
EXTENDS SignalStore, Trace
TInit == Init /\ l = 1
TBegin == IsOp("Begin") /\ sigs' = <<<<>>, <<>>, <<>>>> /\ views' = <<NoView, NoView, NoView, NoView>>
(* Everything there is to see after the call: each known signal, and each view that refers to something. *)
Post == /\ E.post.s = sigs'
        /\ E.post.v = [v \in DOMAIN views' |-> IF views'[v].of = 0 THEN Unknown
                                                ELSE SliceSeq(sigs'[views'[v].of], views'[v].off, views'[v].len)]
        /\ E.post.n = [v \in DOMAIN views' |-> IF views'[v].of = 0 THEN 0 ELSE views'[v].len]
TMake == IsOp("Make") /\ Make(E.a, E.c) /\ Post
TFill == IsOp("Fill") /\ Make(E.a, Fill(E.n, E.x)) /\ Post
TCopy == IsOp("Copy") /\ Copy(E.a, E.b) /\ Post
TMove == IsOp("Move") /\ Move(E.a, E.b) /\ Post
TSwap == IsOp("Swap") /\ Swap(E.a, E.b) /\ Post
TResize == IsOp("Resize") /\ Resize(E.a, E.n, E.x) /\ Post
TReserve == IsOp("Reserve") /\ Reserve(E.a) /\ E.capacity >= E.n /\ Post
TClear == IsOp("Clear") /\ Clear(E.a) /\ Post
TAppend == IsOp("Append") /\ Append1(E.a, E.b) /\ Post
TPrepend == IsOp("Prepend") /\ Prepend(E.a, E.b) /\ Post
TInsert == IsOp("Insert") /\ Insert(E.a, E.i, E.b) /\ Post
TInsertSeq == IsOp("InsertSeq") /\ InsertSeq(E.a, E.i, E.c) /\ Post
TPushBack == IsOp("PushBack") /\ PushBack(E.a, E.x) /\ Post
TErase == IsOp("Erase") /\ Erase(E.a, E.i, E.j) /\ Post
TExtractFront == IsOp("ExtractFront") /\ ExtractFront(E.a, E.n, E.b) /\ Post
TExtractBack == IsOp("ExtractBack") /\ ExtractBack(E.a, E.n, E.b) /\ Post
TRefuseExtract == IsOp("RefuseExtract") /\ RefuseExtract(E.a, E.n) /\ E.outcome \in {"throw", "abort"} /\ Post
TWrite == IsOp("Write") /\ Write(E.a, E.i, E.x) /\ Post
TViewOf == IsOp("ViewOf") /\ ViewOf(E.v, E.a, E.off, E.len, E.const) /\ Post
TSubView == IsOp("SubView") /\ SubView(E.v, E.w, E.off, E.len, E.const) /\ Post
TRefuseView == IsOp("RefuseView") /\ RefuseView(E.w, E.off, E.len) /\ E.outcome \in {"throw", "abort"} /\ Post
TWriteView == IsOp("WriteView") /\ WriteView(E.v, E.i, E.x) /\ Post
TNext == TBegin \/ TMake \/ TFill \/ TCopy \/ TMove \/ TSwap \/ TResize \/ TReserve \/ TClear \/ TAppend \/ TPrepend \/ TInsert
         \/ TInsertSeq \/ TPushBack \/ TErase \/ TExtractFront \/ TExtractBack \/ TRefuseExtract \/ TWrite \/ TViewOf \/ TSubView
         \/ TRefuseView \/ TWriteView
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
