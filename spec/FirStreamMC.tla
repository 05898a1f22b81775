---------------------------- MODULE FirStreamMC ----------------------------
EXTENDS FirStream, TLC
CONSTANTS Values, MaxTaps, MaxBlock, MaxTotal
Values2 == {-1, 2}
Values3 == {-1, 0, 2}
E0 == Real(<<>>)
MCInit == \E f \in {Real(s) : s \in SeqsUpTo(Values, MaxTaps)} :
    /\ Size(f) >= 1
    /\ \E st \in [1..(Size(f) - 1) -> Values] : state = Real(st) /\ past = Real(st)
    /\ taps = f /\ written = E0 /\ out = E0
DoBlock == \E x \in SeqsUpTo(Values, MaxBlock) :
    Size(past) + Len(x) <= Size(taps) - 1 + MaxTotal /\ Block(Real(x))
DoRefuse == \E a \in 0..2, b, c \in 0..1 : Refuse(a, b, c)
MCNext == DoBlock \/ DoRefuse
MCSpec == MCInit /\ [][MCNext]_vars
View == <<taps, state, past, written>>
=============================================================================
