-------------------------- MODULE RationalsTrace ---------------------------
EXTENDS Rationals, Trace
TInit == Init /\ l = 1
\* All registers are seen after each action.
After == \A k \in Regs : E.post[k] = reg'[k] /\ Lowest(E.post[k])
Operand(o) == IF Len(o) = 1 THEN reg[o[1]] ELSE Whole(o[2])      \* <<register>> or <<0, integer>>
TBegin == IsOp("Begin") /\ reg' = [k \in Regs |-> <<0, 1>>]
TSet == IsOp("Set") /\ Set(E.k, E.n, E.d) /\ After
TBinary == IsOp("Binary") /\ Operate(E.k, E.f, Operand(E.a), Operand(E.b)) /\ After
TCompound == IsOp("Compound") /\ Operate(E.k, E.f, reg[E.k], Operand(E.b)) /\ After /\ E.ret = reg'[E.k]
\* ++ and --, before and after: what they return
TStep == IsOp("Step") /\ Step(E.k, E.by) /\ After /\ E.ret = (IF E.prefix THEN reg'[E.k] ELSE reg[E.k])
TCompare == IsOp("Compare") /\ \A k \in 1..Len(E.rel) : E.rel[k] = Relations(Operand(E.a), Operand(E.b)) /\ UNCHANGED vars
TParts == IsOp("Parts") /\ E.floor = FloorOf(reg[E.k]) /\ E.ceil = CeilOf(reg[E.k]) /\ E.frac = Fraction(reg[E.k]) /\ Lowest(E.frac) /\ UNCHANGED vars
\* Value in double and single precision, in units of 1 / scale
TValue == IsOp("Value") /\ \A k \in 1..Len(E.q) : NearRat(E.q[k], E.scale, Rat(BigOf(reg[E.k][1]), BigOf(reg[E.k][2])), 1 + AbsI(E.q[k]) \div 5000000)
          /\ UNCHANGED vars
\* Terms too large for machine integers
BigValue(x) == Rat(BigOf(x[1]), BigOf(x[2]))
BigApply(f, a, b) == CASE f = "+" -> RPlus(a, b) [] f = "-" -> RPlus(a, RNeg(b)) [] f = "*" -> RTimes(a, b) [] OTHER -> RDiv(a, b)
TLarge == IsOp("Large") /\ Lowest(E.a) /\ Lowest(E.b) /\ Lowest(E.ret) /\ REq(BigValue(E.ret), BigApply(E.f, BigValue(E.a), BigValue(E.b)))
          /\ (\A k \in 1..Len(E.rel) : E.rel[k] = Relations(E.a, E.b)) /\ UNCHANGED vars
TNext == TLarge \/ TBegin \/ TSet \/ TBinary \/ TCompound \/ TStep \/ TCompare \/ TParts \/ TValue
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
