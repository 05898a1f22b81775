---------------------------- MODULE FirStreamGen ---------------------------
(* Behaviours of the streaming machine as plans for the harness: number of taps, then the length and method of each      *)
(* block.  Every plan within the bounds is produced; the harness fills in the samples.                                  *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Taps, Lengths, Methods, Blocks
VARIABLES n, plan
GInit == n \in Taps /\ plan = <<>>
GNext == Len(plan) < Blocks /\ \E len \in Lengths, m \in Methods : plan' = Append(plan, <<len, m>>) /\ UNCHANGED n
GSpec == GInit /\ [][GNext]_<<n, plan>>
Emit == Len(plan) = Blocks => PrintT("VPGEN" \o ToJson([n |-> n, plan |-> plan]))
=============================================================================
