--------------------------- MODULE SignalStoreMC ---------------------------
EXTENDS SignalStore, TLC
CONSTANTS MaxLen, Values, Vs
Ids == {1, 2}
Seqs == SeqsUpTo(Values, 2)
MCInit == sigs = <<<<>>, <<>>>> /\ views = [v \in Vs |-> NoView]
DoMake == \E a \in Ids, s \in Seqs : Make(a, s)
DoCopy == \E a, b \in Ids : Copy(a, b)
DoMove == \E a, b \in Ids : Move(a, b)
DoSwap == \E a, b \in Ids : Swap(a, b)
DoResize == \E a \in Ids, n \in 0..MaxLen, x \in Values : Resize(a, n, x)
DoClear == \E a \in Ids : Clear(a) \/ Reserve(a)
DoInsert == \E a, b \in Ids, i \in 0..MaxLen : Insert(a, i, b)
DoPush == \E a \in Ids, x \in Values : PushBack(a, x)
DoErase == \E a \in Ids, i, j \in 0..MaxLen : Erase(a, i, j)
DoExtract == \E a, b \in Ids, n \in 0..MaxLen : ExtractFront(a, n, b) \/ ExtractBack(a, n, b)
DoRefuse == \E a \in Ids, n \in 0..(MaxLen + 1) : RefuseExtract(a, n)
DoView == \E v \in Vs, a \in Ids, off, len \in 0..MaxLen, const \in BOOLEAN : ViewOf(v, a, off, len, const)
DoSubView == \E v, w \in Vs, off, len \in 0..MaxLen, const \in BOOLEAN : SubView(v, w, off, len, const)
DoWrite == \E a \in Ids, i \in 0..MaxLen, x \in Values : Write(a, i, x)
DoWriteView == \E v \in Vs, i \in 0..MaxLen, x \in Values : WriteView(v, i, x)
MCNext == DoMake \/ DoCopy \/ DoMove \/ DoSwap \/ DoResize \/ DoClear \/ DoInsert \/ DoPush \/ DoErase \/ DoExtract \/ DoRefuse
          \/ DoView \/ DoSubView \/ DoWrite \/ DoWriteView
MCSpec == MCInit /\ [][MCNext]_vars
Bounded == \A a \in Ids : Len(sigs[a]) <= MaxLen
(* A write through a view changes one element, which every other view of it shows. *)
WritesOne == [][\A v \in Vs, i \in 0..MaxLen, x \in Values : (WriteView(v, i, x) =>
    /\ \A a \in Ids, k \in 1..MaxLen : (Known(a) /\ k <= Len(sigs[a]) /\ sigs'[a][k] # sigs[a][k]) => a = views[v].of /\ k = views[v].off + i + 1
    /\ sigs'[views[v].of][views[v].off + i + 1] = x)]_vars
(* What is taken out at the front goes back with prepend. *)
ExtractLaw == \A a \in Ids : Known(a) => \A n \in 0..Len(sigs[a]) :
    /\ SubSeq(sigs[a], 1, n) \o Erased(sigs[a], 0, n) = sigs[a]
    /\ Inserted(Erased(sigs[a], n, Len(sigs[a])), n, SubSeq(sigs[a], n + 1, Len(sigs[a]))) = sigs[a]
=============================================================================
