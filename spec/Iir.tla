-------------------------------- MODULE Iir --------------------------------
(* Recursive filtering.  A system is a pair of polynomials in ascending powers whose highest powers act on the newest    *)
(* sample.  A realisation is described by what can be observed of it: the inputs and outputs since it was last at rest.  *)
EXTENDS Signals

VARIABLES sys,     \* [num, den]: integer coefficients, den's last one not zero
          inst     \* id -> [kind, order, xs, ys]: the live realisations; xs and ys are signals

vars == <<sys, inst>>

Top(p) == p[Len(p)]
Order(s) == Max2(Len(s.num), Len(s.den)) - 1
PolyMul(p, q) == ConvSeq(p, q, 0, FullLength(Len(p), Len(q)))
AlignTop(p, n) == ZeroSeq(n - Len(p)) \o p     \* the same polynomial up to a power of the variable
SameFromTop(p, q) == LET n == Max2(Len(p), Len(q)) IN AlignTop(p, n) = AlignTop(q, n)

(* Cascade of sections <<n0, n1, n2, d0, d1>> *)
SectionsNum(secs) == FoldLeft(LAMBDA p, s : PolyMul(p, <<s[1], s[2], s[3]>>), <<1>>, secs)
SectionsDen(secs) == FoldLeft(LAMBDA p, s : PolyMul(p, <<s[4], s[5], 1>>), <<1>>, secs)

(* The k-th newest element of a history that started from rest *)
Newest(h, k) == IF k < Len(h) THEN h[Len(h) - k] ELSE 0
Weighted(p, h, first) ==   \* sum of p's coefficients from the top over the history, leaving the first of them out
    IF Len(p) <= first THEN 0 ELSE SumSeq([k \in 1..(Len(p) - first) |-> p[Len(p) - first - k + 1] * Newest(h, k - 1)])
(* Exact division, undefined results are a value that no output has *)
NotANumber == 2000000002
Divide(a, b) == LET x == IF b < 0 THEN -a ELSE a  y == Abs(b) IN IF x % y = 0 THEN x \div y ELSE NotANumber

(* One step of the difference equation: num*x = den*y *)
NextOutput(s, xs, ys) == Divide(Weighted(s.num, xs, 0) - Weighted(s.den, ys, 1), Top(s.den))
Run(s, xs, ys, x) ==  \* xs, ys extended by the response to the real sequence x
    FoldLeft(LAMBDA h, e : LET nx == Append(h[1], e) IN <<nx, Append(h[2], NextOutput(s, nx, h[2]))>>, <<xs, ys>>, x)
Tail2(h, n) == IF Len(h) <= n THEN h ELSE SubSeq(h, Len(h) - n + 1, Len(h))

AtRest(i) == inst[i].xs = Real(<<>>)
Rest(kind, order) == [kind |-> kind, order |-> order, xs |-> Real(<<>>), ys |-> Real(<<>>)]
(* Cascades hold whole sections, at least one. *)
RealOrder(kind, order) == IF kind = "cas" THEN 2 * Max2(1, (order + 1) \div 2) ELSE order

Init == sys = [num |-> <<1>>, den |-> <<1>>] /\ inst = <<>>

System(num, den) == sys' = [num |-> num, den |-> den] /\ inst' = <<>>
New(id, kind, order) == inst' = [i \in DOMAIN inst \cup {id} |-> IF i = id THEN Rest(kind, RealOrder(kind, order)) ELSE inst[i]] /\ UNCHANGED sys
Reset(id) == id \in DOMAIN inst /\ inst' = [inst EXCEPT ![id] = Rest(@.kind, @.order)] /\ UNCHANGED sys
Reorder(id, order) == id \in DOMAIN inst /\ AtRest(id) /\ inst' = [inst EXCEPT ![id] = Rest(@.kind, RealOrder(@.kind, order))] /\ UNCHANGED sys
Copy(from, to) == {from, to} \subseteq DOMAIN inst /\ inst[from].kind = inst[to].kind /\ inst' = [inst EXCEPT ![to] = inst[from]] /\ UNCHANGED sys

(* The response of realisation id to the block x; other realisations are not concerned. *)
Response(id, x) ==
    LET h == inst[id]  n == Size(x)  N == Order(sys) + 1
        r == Run(sys, h.xs.r, h.ys.r, x.r)
        c == IF IsReal(x) THEN <<h.xs.i, h.ys.i>> ELSE Run(sys, h.xs.i, h.ys.i, x.i)
        t(k) == [xs |-> [r |-> Tail2(r[1], k), i |-> Tail2(c[1], k)], ys |-> [r |-> Tail2(r[2], k), i |-> Tail2(c[2], k)]]
    IN  [y |-> IF IsReal(x) THEN Real(SubSeq(r[2], Len(r[2]) - n + 1, Len(r[2])))
               ELSE [r |-> SubSeq(r[2], Len(r[2]) - n + 1, Len(r[2])), i |-> SubSeq(c[2], Len(c[2]) - n + 1, Len(c[2]))],
         xs |-> t(N).xs, ys |-> t(N).ys]
CanFeed(id) == id \in DOMAIN inst /\ inst[id].order >= Order(sys)
Feed(id, x, y) ==
    /\ CanFeed(id)
    /\ LET p == Response(id, x) IN
        /\ y = p.y
        /\ inst' = [inst EXCEPT ![id].xs = p.xs, ![id].ys = p.ys]
    /\ UNCHANGED sys
Refuse(id) == id \in DOMAIN inst /\ inst[id].order < Order(sys) /\ UNCHANGED vars
=============================================================================
