----------------------------- MODULE WavesTrace -----------------------------
EXTENDS Waves, Trace
TInit == Init /\ l = 1
Tol(float) == IF float THEN 100 ELSE 40
\* The cells off + 1 .. off + size of the memory get such samples that the recorded ones are close to; all other forms agree.
Pick(set, v) == CHOOSE w \in set : \A u \in set : FAbs(v - w) <= FAbs(v - u)
Judge(off, size, sets(_)) ==
    LET s == [k \in 1..size |-> sets(k - 1)] w == [k \in 1..size |-> Pick(s[k], E.mem[off + k])] tol == Tol(E.float) IN
    /\ Len(E.mem) = Len(mem) /\ Write(off, size, w)
    /\ \A k \in 1..Len(mem) : Close(E.mem[k], mem'[k], IF k > off /\ k <= off + size THEN tol ELSE 0)
    /\ \A f \in 1..Len(E.forms) : Len(E.forms[f]) = size /\ \A k \in 1..size : \E v \in s[k] : Close(E.forms[f][k], v, tol)
    /\ \A k \in 1..Len(E.imag) : E.imag[k] = 0
TBegin == IsOp("Begin") /\ mem' = <<>>
TReserve == IsOp("Reserve") /\ Reserve(E.size, E.v) /\ E.mem = mem'
Always(k) == ExactAt(E.p0, k)
TTone == IsOp("Tone") /\ LET at(k) == Shape(E.kind, Tone(E.rate, E.f, E.p0, k), E.a, Always(k)) IN Judge(E.off, E.n, at)
TChirp == IsOp("Chirp") /\ LET at(k) == Shape(E.kind, Chirp(E.rate, E.f, E.g, E.n, E.p0, k), E.a, Always(k)) IN Judge(E.off, E.n, at)
\* Points in thousandths; the memory's other cells keep their value.
TLin == IsOp("Lin") /\ UNCHANGED vars /\ LET m == Steps(E.n, E.closed) IN
        /\ (\A f \in 1..Len(E.forms) : Len(E.forms[f]) = E.n /\ \A k \in 1..E.n : Close(E.forms[f][k] * m, 1000 * LinNum(E.a, E.b, E.n, E.closed, k - 1), m))
        /\ (\A k \in 1..Len(E.imag) : E.imag[k] = 0)
        /\ \A k \in 1..Len(E.guards) : E.guards[k] = 7
LnOf(base) == IF base = <<10, 1>> THEN 618095480 ELSE FLn(FFrac(base[1], base[2]))
TLog == IsOp("Log") /\ UNCHANGED vars
        /\ (\A f \in 1..Len(E.forms) : Len(E.forms[f]) = E.n /\ \A k \in 1..E.n : LET v == LogValue(E.a, E.b, E.scale, E.n, E.closed, k - 1, LnOf(E.base)) IN
               Close(E.forms[f][k], v, 200 + v \div (IF E.float THEN 400000 ELSE 4000000)))
        /\ (\A k \in 1..Len(E.imag) : E.imag[k] = 0)
        /\ \A k \in 1..Len(E.guards) : E.guards[k] = 7
\* Whole powers of the base, in hundredths
TPowers == IsOp("Powers") /\ UNCHANGED vars /\ \A f \in 1..Len(E.forms) : Len(E.forms[f]) = E.b - E.a + 1 /\
           \A k \in 1..Len(E.forms[f]) : LET v == 100 * E.base ^ (E.a + k - 1) IN Close(E.forms[f][k], v, 1 + v \div 100000)
TNext == TBegin \/ TReserve \/ TTone \/ TChirp \/ TLin \/ TLog \/ TPowers
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
