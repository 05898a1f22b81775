----------------------------- MODULE PlanCache -----------------------------
(* The one thing that calls share: the transform plans that are kept for reuse.  A call looks for a plan of its length   *)
(* under a lock, makes one without holding the lock if there is none, looks again and stores it in place of the one not  *)
(* used for longest, and works with its plan while others may evict it.  A plan is destroyed when nobody holds it.        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Lengths, Slots

VARIABLES cache,    \* plans, the least recently used first
          plans,    \* all plans that were not destroyed: identity |-> length
          next,     \* identity of the next plan
          pc, want, has
vars == <<cache, plans, next, pc, want, has>>
None == 0
Init == /\ cache = <<>> /\ plans = [p \in {} |-> 0] /\ next = 1
        /\ pc = [t \in Threads |-> "idle"] /\ want = [t \in Threads |-> 0] /\ has = [t \in Threads |-> None]

Held(p, c, h) == (\E k \in DOMAIN c : c[k] = p) \/ \E t \in Threads : h[t] = p
Alive(all, c, h) == [p \in {q \in DOMAIN all : Held(q, c, h)} |-> all[p]]
Without(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Found(len) == {k \in DOMAIN cache : plans[cache[k]] = len}

Ask(t, len) == pc[t] = "idle" /\ pc' = [pc EXCEPT ![t] = "look"] /\ want' = [want EXCEPT ![t] = len] /\ UNCHANGED <<cache, plans, next, has>>
Take(t, k) == /\ cache' = Append(Without(cache, k), cache[k]) /\ has' = [has EXCEPT ![t] = cache[k]]
              /\ plans' = Alive(plans, cache', has') /\ pc' = [pc EXCEPT ![t] = "use"] /\ UNCHANGED <<next, want>>
Look(t) == pc[t] = "look" /\ IF Found(want[t]) = {} THEN pc' = [pc EXCEPT ![t] = "make"] /\ UNCHANGED <<cache, plans, next, want, has>>
                             ELSE \E k \in Found(want[t]) : Take(t, k)
Make(t) == /\ pc[t] = "make" /\ plans' = [p \in DOMAIN plans \cup {next} |-> IF p = next THEN want[t] ELSE plans[p]]
           /\ has' = [has EXCEPT ![t] = next] /\ next' = next + 1 /\ pc' = [pc EXCEPT ![t] = "store"] /\ UNCHANGED <<cache, want>>
Store(t) == pc[t] = "store" /\ IF Found(want[t]) # {} THEN \E k \in Found(want[t]) : Take(t, k)
            ELSE /\ cache' = Append(IF Len(cache) = Slots THEN Tail(cache) ELSE cache, has[t])
                 /\ plans' = Alive(plans, cache', has) /\ pc' = [pc EXCEPT ![t] = "use"] /\ UNCHANGED <<next, want, has>>
Use(t) == /\ pc[t] = "use" /\ pc' = [pc EXCEPT ![t] = "idle"] /\ has' = [has EXCEPT ![t] = None]
          /\ plans' = Alive(plans, cache, has') /\ want' = [want EXCEPT ![t] = 0] /\ UNCHANGED <<cache, next>>
Step(t) == (\E len \in Lengths : Ask(t, len)) \/ Look(t) \/ Make(t) \/ Store(t) \/ Use(t)
Next == \E t \in Threads : Step(t)

----------------------------------------------------------------------------
AllAlive == (\A k \in DOMAIN cache : cache[k] \in DOMAIN plans) /\ \A t \in Threads : has[t] # None => has[t] \in DOMAIN plans
RightPlan == \A t \in Threads : pc[t] \in {"store", "use"} => plans[has[t]] = want[t]
OnePerLength == \A j, k \in DOMAIN cache : plans[cache[j]] = plans[cache[k]] => j = k
Bounded == Len(cache) <= Slots /\ Cardinality(DOMAIN plans) <= Slots + Cardinality(Threads)
=============================================================================
