---------------------------- MODULE SignalStore ----------------------------
(* Signals as growable sequences, and views of parts of them.  Indices are 0-based.                                     *)
EXTENDS Signals

VARIABLES sigs,      \* contents; a signal that was moved from has Unknown content
          views      \* [of, off, len, const]; of = 0: refers to nothing (never set, or the signal's memory has changed)
vars == <<sigs, views>>

Unknown == <<-1>>         \* elements are not negative
NoView == [of |-> 0, off |-> 0, len |-> 0, const |-> FALSE]
Known(a) == a \in DOMAIN sigs /\ sigs[a] # Unknown
Valid(v) == v \in DOMAIN views /\ views[v].of # 0
Content(v) == SliceSeq(sigs[views[v].of], views[v].off, views[v].len)

(* A signal gets another content and maybe another memory: views of it end. *)
Ended(s) == [v \in DOMAIN views |-> IF views[v].of \in s THEN NoView ELSE views[v]]
Put(a, x) == sigs' = [sigs EXCEPT ![a] = x] /\ views' = Ended({a})
(* Content changes in place *)
Write(a, i, x) == Known(a) /\ i < Len(sigs[a]) /\ sigs' = [sigs EXCEPT ![a][i + 1] = x] /\ UNCHANGED views

Fill(n, x) == [k \in 1..n |-> x]
Resized(s, n, x) == [k \in 1..n |-> IF k <= Len(s) THEN s[k] ELSE x]
Inserted(s, i, t) == SubSeq(s, 1, i) \o t \o SubSeq(s, i + 1, Len(s))
Erased(s, i, j) == SubSeq(s, 1, i) \o SubSeq(s, j + 1, Len(s))      \* without [i, j)

Make(a, s) == Put(a, s)
Copy(a, b) == Known(a) /\ IF a = b THEN UNCHANGED sigs /\ views' = Ended({a}) ELSE Put(b, sigs[a])
Move(a, b) == Known(a) /\ a # b /\ sigs' = [sigs EXCEPT ![b] = sigs[a], ![a] = Unknown] /\ views' = Ended({a, b})
Swap(a, b) == Known(a) /\ Known(b) /\ sigs' = [sigs EXCEPT ![a] = sigs[b], ![b] = sigs[a]] /\ views' = Ended({a, b})
Resize(a, n, x) == Known(a) /\ Put(a, Resized(sigs[a], n, x))
Reserve(a) == Known(a) /\ Put(a, sigs[a])
Clear(a) == Put(a, <<>>)
Insert(a, i, b) == Known(a) /\ Known(b) /\ a # b /\ i <= Len(sigs[a]) /\ Put(a, Inserted(sigs[a], i, sigs[b]))
Append1(a, b) == Known(a) /\ Insert(a, Len(sigs[a]), b)
Prepend(a, b) == Insert(a, 0, b)
InsertSeq(a, i, t) == Known(a) /\ i <= Len(sigs[a]) /\ Put(a, Inserted(sigs[a], i, t))
PushBack(a, x) == Known(a) /\ Put(a, Append(sigs[a], x))
Erase(a, i, j) == Known(a) /\ i <= j /\ j <= Len(sigs[a]) /\ Put(a, Erased(sigs[a], i, j))
(* The extracted part goes to b; if both are the same, the part remains. *)
ExtractFront(a, n, b) == Known(a) /\ n <= Len(sigs[a]) /\ views' = Ended({a, b})
    /\ sigs' = [[sigs EXCEPT ![a] = SubSeq(@, n + 1, Len(@))] EXCEPT ![b] = SubSeq(sigs[a], 1, n)]
ExtractBack(a, n, b) == Known(a) /\ n <= Len(sigs[a]) /\ views' = Ended({a, b})
    /\ sigs' = [[sigs EXCEPT ![a] = SubSeq(@, 1, Len(@) - n)] EXCEPT ![b] = SubSeq(sigs[a], Len(sigs[a]) - n + 1, Len(sigs[a]))]
RefuseExtract(a, n) == Known(a) /\ n > Len(sigs[a]) /\ UNCHANGED vars

SetView(v, x) == views' = [views EXCEPT ![v] = x] /\ UNCHANGED sigs
ViewOf(v, a, off, len, const) == Known(a) /\ off + len <= Len(sigs[a]) /\ SetView(v, [of |-> a, off |-> off, len |-> len, const |-> const])
SubView(v, w, off, len, const) == Valid(w) /\ off + len <= views[w].len /\ (views[w].const => const)
    /\ SetView(v, [views[w] EXCEPT !.off = @ + off, !.len = len, !.const = const])
RefuseView(w, off, len) == Valid(w) /\ off + len > views[w].len /\ UNCHANGED vars
WriteView(v, i, x) == Valid(v) /\ ~views[v].const /\ i < views[v].len /\ Write(views[v].of, views[v].off + i, x)

Init == sigs = <<<<>>, <<>>, <<>>>> /\ views = <<NoView, NoView, NoView, NoView>>
----------------------------------------------------------------------------
InRange == \A v \in DOMAIN views : Valid(v) => Known(views[v].of) /\ views[v].off + views[v].len <= Len(sigs[views[v].of])
=============================================================================
