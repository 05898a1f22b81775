-------------------------- MODULE SignalStoreGen --------------------------
(* Random histories as plans for the harness: each step a sequence of numbers, the last one selecting among equivalent  *)
(* ways to make the call. *)
EXTENDS SignalStore, TLC, Json, Randomization
CONSTANTS Steps, MaxLen, Mode    \* Mode 1: signals only; 2: mostly views
VARIABLES plan, done
R(S) == RandomElement(S)
Ids == 1..3
Vs == 1..4
Op(s) == plan' = Append(plan, Append(s, R(0..7))) /\ UNCHANGED done
\* Drawn values are bound by quantifiers over singletons; definitions would draw again at each use.
RandSeq(n) == [i \in 1..n |-> R(0..99)]
Fits(a, n) == Known(a) /\ Len(sigs[a]) + n <= MaxLen
LenOf(a) == IF Known(a) THEN Len(sigs[a]) ELSE 0
GMake == \E a \in Ids : \E n \in {R(0..9)} : \E s \in {RandSeq(n)} : Make(a, s) /\ Op(<<0, a, n>> \o s)
GFill == \E a \in Ids : \E n \in {R(0..9)} : \E x \in {R(0..99)} : Make(a, Fill(n, x)) /\ Op(<<1, a, n, x>>)
GCopy == \E a, b \in Ids : Copy(a, b) /\ Op(<<2, a, b>>)
GMove == \E a, b \in Ids : Move(a, b) /\ Op(<<3, a, b>>)
GSwap == \E a, b \in Ids : Swap(a, b) /\ Op(<<4, a, b>>)
GResize == \E a \in Ids : \E n \in {R(0..12)} : \E x \in {R(0..99)} : Resize(a, n, x) /\ Op(<<5, a, n, x>>)
GResize0 == \E a \in Ids : \E n \in {R(0..12)} : Resize(a, n, 0) /\ Op(<<6, a, n>>)
GReserve == \E a \in Ids : Reserve(a) /\ Op(<<7, a, R(0..40)>>)
GClear == \E a \in Ids : Clear(a) /\ Op(<<8, a>>)
GAppend == \E a, b \in Ids : Fits(a, LenOf(b)) /\ Append1(a, b) /\ Op(<<9, a, b>>)
GPrepend == \E a, b \in Ids : Fits(a, LenOf(b)) /\ Prepend(a, b) /\ Op(<<10, a, b>>)
GInsert == \E a, b \in Ids : Fits(a, LenOf(b)) /\ \E i \in {R(0..LenOf(a))} : Insert(a, i, b) /\ Op(<<11, a, i, b>>)
GInsertSeq == \E a \in Ids : \E n \in {R(0..5)} : Fits(a, n) /\ \E i \in {R(0..LenOf(a))} : \E s \in {RandSeq(n)} :
    InsertSeq(a, i, s) /\ Op(<<12, a, i, n>> \o s)
GPush == \E a \in Ids : \E x \in {R(0..99)} : Fits(a, 1) /\ PushBack(a, x) /\ Op(<<13, a, x>>)
GErase == \E a \in Ids : Known(a) /\ \E i \in {R(0..LenOf(a))} : \E j \in {R(i..LenOf(a))} : Erase(a, i, j) /\ Op(<<14, a, i, j>>)
GFront == \E a, b \in Ids : Known(a) /\ \E n \in {R(0..LenOf(a))} : ExtractFront(a, n, b) /\ Op(<<15, a, n, b>>)
GBack == \E a, b \in Ids : Known(a) /\ \E n \in {R(0..LenOf(a))} : ExtractBack(a, n, b) /\ Op(<<16, a, n, b>>)
GRefuse == \E a \in Ids : Known(a) /\ R(1..4) = 1 /\ \E n \in {LenOf(a) + R(1..3)} : RefuseExtract(a, n) /\ Op(<<17, a, n>>)
GWrite == \E a \in Ids : Known(a) /\ LenOf(a) > 0 /\ \E i \in {R(0..(LenOf(a) - 1))} : \E x \in {R(0..99)} : Write(a, i, x) /\ Op(<<18, a, i, x>>)
B(c) == IF c THEN 1 ELSE 0
GView == \E v \in Vs, a \in Ids : Known(a) /\ \E off \in {R(0..LenOf(a))} : \E len \in {R(0..(LenOf(a) - off))} : \E c \in {R(BOOLEAN)} :
    ViewOf(v, a, off, len, c) /\ Op(<<19, v, a, off, len, B(c)>>)
GWhole == \E v \in Vs, a \in Ids : Known(a) /\ \E c \in {R(BOOLEAN)} : ViewOf(v, a, 0, LenOf(a), c) /\ Op(<<19, v, a, 0, LenOf(a), B(c)>>)
GSub == \E v, w \in Vs : Valid(w) /\ \E off \in {R(0..views[w].len)} : \E len \in {R(0..(views[w].len - off))} :
    \E c \in {views[w].const \/ R(1..4) = 1} : SubView(v, w, off, len, c) /\ Op(<<20, v, w, off, len, B(c)>>)
GPart == \E v, w \in Vs : Valid(w) /\ \E len \in {R(0..views[w].len)} : \E front \in {R(BOOLEAN)} :
    \E off \in {IF front THEN 0 ELSE views[w].len - len} : SubView(v, w, off, len, views[w].const) /\ Op(<<20, v, w, off, len, B(views[w].const)>>)
GRefuseView == \E w \in Vs : Valid(w) /\ R(1..4) = 1 /\ \E off \in {R(0..(views[w].len + 1))} : \E len \in {views[w].len + 1 + R(0..2) - Min2(off, views[w].len)} :
    RefuseView(w, off, len) /\ Op(<<21, w, off, len>>)
GWriteView == \E v \in Vs : Valid(v) /\ ~views[v].const /\ views[v].len > 0 /\ \E i \in {R(0..(views[v].len - 1))} : \E x \in {R(0..99)} :
    WriteView(v, i, x) /\ Op(<<22, v, i, x>>)
Edits == GCopy \/ GMove \/ GSwap \/ GResize \/ GResize0 \/ GReserve \/ GClear \/ GAppend \/ GPrepend \/ GInsert \/ GInsertSeq
         \/ GPush \/ GErase \/ GFront \/ GBack \/ GRefuse \/ GWrite
Looks == GView \/ GWhole \/ GSub \/ GPart \/ GRefuseView \/ GWriteView
GStep == IF Mode = 1 THEN GMake \/ GFill \/ Edits
         ELSE \E k \in {R(1..10)} : IF Len(plan) < 3 THEN \E n \in {R(1..9)} : \E s \in {RandSeq(n)} : Make(Len(plan) + 1, s) /\ Op(<<0, Len(plan) + 1, n>> \o s)
                                    ELSE IF k = 1 THEN Edits ELSE IF k = 2 THEN GWrite ELSE Looks
GInit == Init /\ plan = <<>> /\ done = FALSE
GNext == \/ Len(plan) < Steps /\ GStep
         \/ Len(plan) = Steps /\ ~done /\ done' = TRUE /\ UNCHANGED <<vars, plan>>
GSpec == GInit /\ [][GNext]_<<vars, plan, done>>
Emit == done => PrintT("VPGEN" \o ToJson(plan))
=============================================================================
