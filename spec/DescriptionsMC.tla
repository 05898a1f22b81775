--------------------------- MODULE DescriptionsMC ---------------------------
(* Every history of a few setters on every kind of description; what was set is kept apart, setter by setter. *)
EXTENDS Descriptions, TLC
CONSTANTS MaxSteps, Some
VARIABLE log                                                     \* Accepted settings, in order
allVars == <<kind, set, log>>
MInit == Init /\ log = <<>>
MStart == kind = <<>> /\ (\E k \in Kinds : Start(k)) /\ UNCHANGED log
Values(name) == CASE name = "window" -> {<<0>>, <<3, 2000000>>, <<4, 5>>} [] name = "grid" -> {<<0>>, <<60>>}
                  [] name = "edges" -> (LET n == Len(set.edges) IN {[i \in 1..n |-> (Million * i) \div (n + 1)], [i \in 1..n |-> 300000 + i], [i \in 1..n |-> IF i = n THEN 0 ELSE Million],
                                            [i \in 1..n |-> IF i = 1 THEN Nan ELSE Million], [i \in 1..n |-> IF i = n THEN Million + 1 ELSE 0]})
                  [] OTHER -> {[i \in 1..Len(set[name]) |-> Some * i], [i \in 1..Len(set[name]) |-> 7]}
MPut == /\ kind # <<>> /\ Len(log) < MaxSteps
        /\ \E name \in DOMAIN set : \E v \in Values(name) : Put(name, v) /\ log' = Append(log, IF Verdict(name, v) = "ok" THEN <<name, v>> ELSE <<"refused", v>>)
MNext == MStart \/ MPut
MSpec == MInit /\ [][MNext]_allVars
\* The last accepted value of every setting, or the default
LastWins == kind # <<>> => \A name \in DOMAIN set : LET s == {i \in 1..Len(log) : log[i][1] = name} IN
            set[name] = IF s = {} THEN Default(kind)[name] ELSE log[CHOOSE i \in s : \A j \in s : j <= i][2]
Valid == kind # <<>> => /\ DOMAIN set = DOMAIN Default(kind)
                        /\ ("edges" \in DOMAIN set => Sorted(set.edges) /\ \A i \in 1..Len(set.edges) : Normal(set.edges[i]))
DefaultsValid == kind # <<>> /\ log = <<>> => ("edges" \in DOMAIN set => Inside(set.edges))
=============================================================================
