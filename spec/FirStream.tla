----------------------------- MODULE FirStream -----------------------------
(* Streaming FIR filtering: a signal is filtered block by block, a caller-held state carries the last inputs over.       *)
EXTENDS Signals

VARIABLES taps,     \* the filter
          state,    \* the carried state: the last Size(taps) - 1 inputs
          past,     \* history: initial state and all inputs since then
          written,  \* history: all outputs since then
          out       \* the output of the last block

vars == <<taps, state, past, written, out>>

LastN(s, n) == Slice(s, Size(s) - n, n)

Start(f, st) ==
    /\ Size(f) >= 1 /\ Size(st) = Size(f) - 1
    /\ taps' = f /\ state' = st /\ past' = st
    /\ written' = Real(<<>>) /\ out' = Real(<<>>)

(* Filter one block; the method does not matter. *)
Block(x) ==
    LET line == Cat(state, x)
        y == ConvWindow(line, taps, Size(taps) - 1, Size(x))
    IN  /\ state' = LastN(line, Size(taps) - 1)
        /\ past' = Cat(past, x)
        /\ out' = y
        /\ written' = Cat(written, y)
        /\ UNCHANGED taps

(* States of another size than the filter asks for, and outputs of another size than the input, are refused. *)
Refusable(stateSize, inSize, outSize) == stateSize # Size(taps) - 1 \/ inSize # outSize
Refuse(stateSize, inSize, outSize) == Refusable(stateSize, inSize, outSize) /\ UNCHANGED vars

----------------------------------------------------------------------------
TypeOK == Size(state) = Size(taps) - 1
(* What the state is for: it does not matter how the input was cut. *)
CutInvariance == written = ConvWindow(past, taps, Size(taps) - 1, Size(past) - Size(taps) + 1)
StateIsLastInputs == state = LastN(past, Size(taps) - 1)
=============================================================================
