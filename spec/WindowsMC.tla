------------------------------ MODULE WindowsMC ------------------------------
EXTENDS Windows, TLC
CONSTANTS Len0, Tol, Some
VARIABLES kind, n, a, w
allVars == <<mem, kind, n, a, w>>
P(k) == IF k = "gaussian" THEN {<<1, 2>>, <<1, 1>>, <<1, 3>>} ELSE IF k = "kaiser" THEN {<<1, 2>>, <<1, 1>>, <<5, 2>>} ELSE IF k = "dolphChebyshev" THEN {<<1, 2>>, <<1, 10>>, <<1, 100>>} ELSE {<<0, 1>>}
MInit == Init /\ kind \in Kinds /\ a \in P(kind) /\ n = 0 /\ w = <<>>
MWindow == n < Len0 /\ n' = n + 1 /\ w' = Window(kind, n + 1, a) /\ mem' = w' /\ UNCHANGED <<kind, a>>
\* Into part of a memory
MInto == n = Len0 /\ \E s \in Some : n' = Len0 + 1 /\ w' = Window(kind, s, a) /\ LET m == [k \in 1..(s + 4) |-> 7] IN
         mem' = [k \in 1..(s + 4) |-> IF k > 2 /\ k <= s + 2 THEN w'[k - 2] ELSE m[k]] /\ UNCHANGED <<kind, a>>
MNext == MWindow \/ MInto
MSpec == MInit /\ [][MNext]_allVars
Symmetric == \A k \in 1..Len(w) : Close(w[k], w[Len(w) + 1 - k], Tol)
Bounded == \A k \in 1..Len(w) : w[k] <= One + Tol /\ w[k] >= (IF kind = "flattop" THEN -(One \div 10) ELSE -Tol)
Peaked == Len(w) % 2 = 1 /\ (kind # "dolphChebyshev" \/ a[2] > 10) => Close(w[(Len(w) + 1) \div 2], One, Tol)
Rising == kind \notin {"flattop", "dolphChebyshev"} => \A k \in 2..((Len(w) + 1) \div 2) : w[k - 1] <= w[k] + Tol
Edges == Len(w) > 1 => CASE kind \in {"triangular", "lanczos"} -> Close(w[1], 0, Tol) [] kind = "hamming" -> Close(w[1], 21474836, Tol)
         [] kind = "blackman" -> Close(w[1], 0, Tol) [] kind = "gaussian" /\ a = <<1, 1>> -> Close(w[1], 162814334, Tol) [] OTHER -> TRUE
=============================================================================
