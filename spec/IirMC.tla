------------------------------- MODULE IirMC -------------------------------
(* The three realisations modelled with the delay lines they really have, next to the difference equation: their outputs *)
(* agree for every small system and every input history, reset and rest included.                                       *)
EXTENDS Iir, TLC
CONSTANTS Coefs, Leads, Inputs, MaxLen, Steps

CoefsA == {-1, 0, 2}
LeadsA == {1, -1}
LeadsB == {1, -1, 2}
InputsA == {-1, 1}

VARIABLES fw, rec, w, sec, secs, xs, ys, last, steps
mvars == <<sys, inst, fw, rec, w, sec, secs, xs, ys, last, steps>>

N == 2 * ((MaxLen + 1) \div 2)        \* order of the realisations
Zero(n) == ZeroSeq(n)
Shift(s, v) == IF s = <<>> THEN s ELSE Append(Tail(s), v)
(* Inner product of a coefficient sequence with the newest elements of a delay line *)
Tap(p, line) == SumSeq([k \in 1..Len(p) |-> p[k] * line[Len(line) - Len(p) + k]])

Sections == UNION {[1..m -> {<<a, b, c, d, e>> : a \in {0, 2}, b \in {-1, 0}, c \in {1}, d \in {0, 1}, e \in {-1}}] : m \in 1..2}
MCInit ==
    \/ /\ secs = <<>>
       /\ \E n \in SeqsUpTo(Coefs, MaxLen), d \in SeqsUpTo(Coefs, MaxLen - 1), t \in Leads :
            n # <<>> /\ Append(d, t) # <<>> /\ sys = [num |-> [k \in 1..Len(n) |-> t * n[k]], den |-> [k \in 1..Len(d) + 1 |-> IF k > Len(d) THEN t ELSE t * d[k]]]
       /\ fw = Zero(N + 1) /\ rec = Zero(N) /\ w = Zero(N + 1) /\ sec = <<>>
       /\ inst = <<>> /\ xs = <<>> /\ ys = <<>> /\ last = <<0, 0, 0, 0>> /\ steps = 0
    \/ /\ secs \in Sections
       /\ sys = [num |-> SectionsNum(secs), den |-> SectionsDen(secs)]
       /\ fw = Zero(5) /\ rec = Zero(4) /\ w = Zero(5) /\ sec = [k \in 1..Len(secs) + 1 |-> <<0, 0, 0>>]
       /\ inst = <<>> /\ xs = <<>> /\ ys = <<>> /\ last = <<0, 0, 0, 0>> /\ steps = 0

Df1(x) == LET f == Shift(fw, x)
              y == Divide(Tap(sys.num, f) - Tap(SubSeq(sys.den, 1, Len(sys.den) - 1), rec), Top(sys.den))
          IN  [f |-> f, r |-> Shift(rec, y), y |-> y]
Df2(x) == LET d == SubSeq(sys.den, 1, Len(sys.den) - 1)
              \* the state is kept multiplied by the leading coefficient to stay in the integers
              t == Top(sys.den)
              s == x * t - Tap(d, w)
              nw == Shift(w, Divide(s, t))
          IN  [w |-> nw, y |-> Divide(Tap(sys.num, nw), t)]
Cascade(x) ==
    FoldLeft(LAMBDA a, k :
        LET cur == <<a.s[k][2], a.s[k][3], a.v>>
            st == [a.s EXCEPT ![k] = cur]
        IN  IF k <= Len(secs)
            THEN LET nx == a.s[k + 1]
                     c == secs[k]
                     o == (cur[1] * c[1] + cur[2] * c[2] + cur[3] * c[3]) - (nx[2] * c[4] + nx[3] * c[5])
                 IN  [s |-> st, v |-> o]
            ELSE [s |-> st, v |-> a.v],
        [s |-> sec, v |-> x], [k \in 1..Len(sec) |-> k])

DoFeed == \E x \in Inputs :
    LET a == Df1(x)  b == Df2(x)
        c == IF secs = <<>> THEN [s |-> sec, v |-> a.y] ELSE Cascade(x)
        e == NextOutput(sys, Append(xs, x), ys)
    IN  /\ steps < Steps
        /\ fw' = a.f /\ rec' = a.r /\ w' = b.w /\ sec' = c.s
        /\ xs' = Append(xs, x) /\ ys' = Append(ys, e)
        /\ last' = <<e, a.y, b.y, c.v>>
        /\ steps' = steps + 1 /\ UNCHANGED <<sys, inst, secs>>
DoReset == /\ steps < Steps /\ xs # <<>>
           /\ fw' = [k \in 1..Len(fw) |-> 0] /\ rec' = [k \in 1..Len(rec) |-> 0] /\ w' = [k \in 1..Len(w) |-> 0]
           /\ sec' = [k \in 1..Len(sec) |-> <<0, 0, 0>>]
           /\ xs' = <<>> /\ ys' = <<>> /\ last' = <<0, 0, 0, 0>> /\ steps' = steps + 1
           /\ UNCHANGED <<sys, inst, secs>>
MCNext == DoFeed \/ DoReset
MCSpec == MCInit /\ [][MCNext]_mvars

Agree == last[1] = last[2] /\ last[1] = last[3] /\ last[1] = last[4]
Exact == last[1] # NotANumber
=============================================================================
