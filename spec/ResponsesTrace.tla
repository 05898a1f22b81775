--------------------------- MODULE ResponsesTrace ---------------------------
EXTENDS Responses, Trace
TInit == Init /\ l = 1
\* Signs are exact; carriers are of the element type's precision, and of the specification's.
Tol(kind, n, float) == CASE kind = "mirror" -> 0 [] kind = "shift" -> (IF float THEN 300 + 200 * n ELSE 40) [] OTHER -> IF float THEN 40 ELSE 1
Near(s, w, tol, from, to) == Len(s) = Len(w) /\ \A k \in 1..Len(w) : Close(s[k], w[k], IF k > from /\ k <= to THEN tol ELSE 0)
TBegin == IsOp("Begin") /\ re' = <<>> /\ im' = <<>>
TFill == IsOp("Fill") /\ Fill(E.re, E.im)
\* Roundings are adopted; results into signals of their own (forms: parts one after the other) are the same.
TTransform == IsOp("Transform") /\ Defined(E.kind, E.n, E.m) /\ re' = E.mem.re /\ im' = E.mem.im /\ LET tol == Tol(E.kind, E.n, E.float) IN
    /\ Near(E.mem.re, NewRe(E.kind, E.from, E.n, E.to, E.a), tol, E.to, E.to + E.m)
    /\ Near(E.mem.im, NewIm(E.kind, E.from, E.n, E.to, E.a), tol, E.to, E.to + E.m)
    /\ LET r == Result(E.kind, SubSeq(re, E.from + 1, E.from + E.n), One, E.a) IN \A f \in 1..Len(E.mem.forms) : Near(E.mem.forms[f], r, tol, 0, E.m)
    /\ (im # <<>> => LET i == Result(E.kind, SubSeq(im, E.from + 1, E.from + E.n), 0, E.a) IN \A f \in 1..Len(E.mem.formsi) : Near(E.mem.formsi[f], i, tol, 0, E.m))
\* No precondition is broken silently.
TRefuse == IsOp("Refuse") /\ UNCHANGED vars /\ ~Defined(E.kind, E.n, E.m) /\ E.outcome \in {"abort", "throw"}
TNext == TBegin \/ TFill \/ TTransform \/ TRefuse
TSpec == TInit /\ [][TNext]_<<vars, l>>
=============================================================================
