----------------------------- MODULE RationalsGen ----------------------------
(* Random histories of the registers.  Operators are numbered + - * /; an operand is a register, or 10 and an integer. *)
EXTENDS Rationals, TLC, Json, Randomization
CONSTANTS Steps
VARIABLES plan, done
R(S) == RandomElement(S)
Fs == <<"+", "-", "*", "/">>
Op(s) == plan' = Append(plan, s) /\ UNCHANGED done
RandInt(c) == CASE c = 1 -> R(-3..3) [] c = 2 -> R(-40..40) [] OTHER -> R(-Limit..Limit)
GSet == \E k \in Regs : \E n \in {RandInt(R(1..3))} : \E d \in {R({R(1..6), R(1..60), R(1..Limit)})} : Set(k, n, d) /\ Op(<<0, k, n, d>>)
\* The result goes to a register, from registers or integers.
GBinary == \E k \in Regs, a, b \in 0..3, f \in {R(1..4)} : \E i \in {RandInt(R(1..3))} : (a # 0 \/ b # 0) /\
    Operate(k, Fs[f], IF a = 0 THEN Whole(i) ELSE reg[a], IF b = 0 THEN Whole(i) ELSE reg[b]) /\ Op(<<1, k, f, a, b, i>>)
GCompound == \E k \in Regs, b \in 0..3, f \in {R(1..4)} : \E i \in {RandInt(R(1..3))} :
    Operate(k, Fs[f], reg[k], IF b = 0 THEN Whole(i) ELSE reg[b]) /\ Op(<<2, k, f, b, i>>)
GStep == \E k \in Regs, by \in {-1, 1}, pre \in 0..1 : Step(k, by) /\ Op(<<3, k, by, pre>>)
GInit == Init /\ plan = <<>> /\ done = FALSE
\* Kinds of steps are drawn evenly.
GNext == \/ Len(plan) < Steps /\ \E c \in {R(1..4)} : IF c = 1 \/ \E k \in Regs : ~Small(reg[k]) THEN GSet ELSE IF c = 2 THEN GBinary ELSE IF c = 3 THEN GCompound ELSE GStep
         \/ Len(plan) = Steps /\ ~done /\ done' = TRUE /\ UNCHANGED <<reg, plan>>
GSpec == GInit /\ [][GNext]_<<reg, plan, done>>
Emit == done => PrintT("VPGEN" \o ToJson(plan))
=============================================================================
