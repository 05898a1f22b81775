------------------------------- MODULE Trace -------------------------------
(* What every trace specification shares: the recorded events, the position, and acceptance. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l      \* the next event

IsOp(op) == l <= Len(Trace) /\ Trace[l].op = op /\ l' = l + 1
E == Trace[l]

TraceAccepted == PrintT(<<"VPTRACE", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
