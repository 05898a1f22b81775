---------------------------- MODULE PolyphaseGen ---------------------------
(* Random behaviours of Polyphase, as plans for the harness: each step is a sequence of numbers. *)
EXTENDS Polyphase, TLC, Json, Randomization
CONSTANTS Steps, MaxTaps, MaxPhases
VARIABLES plan, done
R(S) == RandomElement(S)
Op(s) == plan' = Append(plan, s) /\ UNCHANGED done
RandSeq(n) == [t \in 1..n |-> R(-4..4)]
\* The first tap of each phase is set so that the phase has a sum that can be divided by.
Balanced(h, n, s) == [t \in 1..Len(h) |-> IF t > n THEN h[t] ELSE s[t] - SumSeq([j \in 1..(PhaseLen(Len(h), n, t - 1) - 1) |-> h[t + j * n]])]
RandSums(n) == [t \in 1..n |-> R({1, -1, 2, -2, 4})]
GDefault == \E k \in Ids : Default(k, TRUE) /\ Op(<<0, k>>)
GConstruct == \E k \in Ids : \E len \in {R(0..MaxTaps)} : \E n \in {R(1..MaxPhases)} : Construct(k, len, n, TRUE) /\ Op(<<1, k, len, n>>)
GDecompose == \E k \in Ids : \E len \in {R(1..MaxTaps)} : \E n \in {R(1..MaxPhases)} : \E h0 \in {RandSeq(len)} : \E s \in {RandSums(n)} :
    \E h \in {Balanced(h0, n, s)} : Decompose(k, Real(h), n) /\ Op(<<2, k, n, len>> \o h)
GCopy == \E a, b \in Ids : Copy(a, b) /\ \E how \in 0..1 : (how = 1 => Known(b)) /\ (how = 0 => a # b) /\ Op(<<3, a, b, how>>)
GMove == \E a, b \in Ids : Move(a, b) /\ \E how \in 0..1 : (how = 1 => Known(b)) /\ Op(<<4, a, b, how>>)
GNormalize == \E k \in Ids : Normalize(k) /\ Op(<<5, k>>)
GNormalizeCopy == \E a, b \in Ids : NormalizeCopy(a, b) /\ Op(<<6, a, b>>)
GWrite == \E k \in Ids : Known(k) /\ \E p \in {R(0..objs[k].n - 1)} : \E j \in {R(0..6)} : \E v \in {R(-5..5)} :
    Write(k, p, j, v * Unit) /\ Op(<<7, k, p, j, v>>)
GFill == \E k \in Ids : \E v \in {R(1..3)} : R(1..3) = 1 /\ Fill(k, v * Unit) /\ Op(<<8, k, v>>)
GStep == GDefault \/ GConstruct \/ GDecompose \/ GCopy \/ GMove \/ GNormalize \/ GNormalizeCopy \/ GWrite \/ GFill
GInit == Init /\ plan = <<>> /\ done = FALSE
GNext == \/ Len(plan) < Steps /\ GStep
         \/ Len(plan) = Steps /\ ~done /\ done' = TRUE /\ UNCHANGED <<objs, plan>>
GSpec == GInit /\ [][GNext]_<<objs, plan, done>>
Emit == done => PrintT("VPGEN" \o ToJson(plan))
=============================================================================
