------------------------------ MODULE CallsMC ------------------------------
(* Calls that use the shared plans are calls in the sense of Calls: what a transform gives is a matter of its length.     *)
EXTENDS PlanCache, TLC
\* Identities do not matter.
View == LET ids == DOMAIN plans
            Rank(p) == IF p = None THEN 0 ELSE Cardinality({q \in ids : q <= p})
        IN  <<[k \in DOMAIN cache |-> Rank(cache[k])], [k \in 1..Cardinality(ids) |-> plans[CHOOSE p \in ids : Rank(p) = k]], pc, want, [t \in Threads |-> Rank(has[t])]>>
Abstract == INSTANCE Calls WITH known <- [task \in {<<len>> : len \in Lengths} |-> task[1]],
                                running <- [t \in Threads |-> IF pc[t] = "idle" THEN <<>> ELSE <<want[t]>>], operands <- 0
Equal(a, b) == a = b
Refines == [][\E t \in Threads : \/ \E len \in Lengths : Abstract!Start(t, <<len>>)
                                 \/ pc[t] = "use" /\ Abstract!Finish(t, plans[has[t]], Equal)]_<<Abstract!vars>>
MCSpec == Init /\ [][Next]_vars
=============================================================================
