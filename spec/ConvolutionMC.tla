--------------------------- MODULE ConvolutionMC ---------------------------
(* Exhaustive small model of Convolution. *)
EXTENDS Convolution, TLC
CONSTANTS Values, MaxU, MaxV, Complex

Values3 == {-1, 0, 2}
Values2 == {-1, 2}

Sigs(n) == IF Complex THEN UNION {{[r |-> a, i |-> b] : a, b \in [1..m -> Values]} : m \in 1..n} \cup {Empty}
           ELSE {Real(s) : s \in SeqsUpTo(Values, n)}
Canary(n) == LET s == [k \in 1..n |-> 10 + k] IN IF Complex THEN [r |-> s, i |-> s] ELSE Real(s)

MCInit == \E a \in Sigs(MaxU), b \in Sigs(MaxV) :
    mem = [u |-> a, v |-> b, o |-> Canary(FullLength(Size(a), Size(b)) + 1)]

Fresh == mem.o = Canary(Size(mem.o))     \* one call per behaviour
DoInto == Fresh /\ \E off \in 0..Size(mem.o), clear \in BOOLEAN : \E len \in 0..(Size(mem.o) - off) :
    ConvolveInto("window", 1, len, off, clear)
DoMode == Fresh /\ \E mode \in {"full", "central"}, clear \in BOOLEAN : \E len \in 0..Size(mem.o) :
    ConvolveInto(mode, 0, len, 0, clear)
DoOverlapAdd == Fresh /\ \E chunk \in 0..(2 * MaxU), off \in 0..1 : \E len \in 0..2 :
    OverlapAddInto("window", 0, len, off, TRUE, chunk)
DoRefuse == Fresh /\ \E len \in 0..(MaxU + MaxV + 1), chunk \in 0..3 : \E mode \in {"window", "full", "central"} : Refuse(mode, len, 0, chunk)
MCNext == DoInto \/ DoMode \/ DoOverlapAdd \/ DoRefuse
MCSpec == MCInit /\ [][MCNext]_mem

(* The laws concern u and v only. *)
Laws == Fresh => Commutes /\ WindowsAgree /\ CentralIsInner /\ SumOfProduct /\ SplitsAdd

(* Inputs and everything outside of the addressed part are unchanged. *)
Frame == [][/\ mem'.u = mem.u /\ mem'.v = mem.v
            /\ Size(mem'.o) = Size(mem.o)
            /\ DoInto => mem'.o.r[1] = mem.o.r[1]]_mem
=============================================================================
