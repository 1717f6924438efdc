------------------------------- MODULE T_Reorder -------------------------------
(* Sessions of orderings and scalings of the real code: each line is one call   *)
(* and the matrix and the vector afterwards; it is judged against those before. *)
EXTENDS Reorder, FloatRing, Trace
VARIABLES m, x, o           \* matrix and vector as last shown; what is set
TNInv(f) == FDiv(F1, f)
None == [r |-> <<>>, c |-> <<>>, rs |-> <<>>, cs |-> <<>>]
Init == l = 1 /\ m = <<>> /\ x = <<>> /\ o = None
M(e) == IF e.step = 1 THEN e.m0 ELSE m
X(e) == IF e.step = 1 THEN e.x0 ELSE x
O(e) == IF e.step = 1 THEN None ELSE o
Shown(e) == [n |-> M(e).n, bs |-> M(e).bs, rp |-> e.rp, ci |-> e.ci, a |-> e.a]
\* a method that orders rows and columns by the number of entries of the row, and scales rows with it
RowLen(s, i) == s.rp[i+2] - s.rp[i+1]
ByLength(s) == [k \in 1..s.n |-> CHOOSE i \in Rows(s) : k - 1 = Cardinality({j \in Rows(s) : RowLen(s, j) < RowLen(s, i) \/ (RowLen(s, j) = RowLen(s, i) /\ j < i)})]
LenFactors(s) == [k \in 1..s.n |-> FAdd(FDiv(F1, FOfInt(2)), FOfInt(RowLen(s, k-1)))]
\* what the method was shown is the matrix
ComputeOk(e) == LET s == M(e) IN e.op = "comp" =>
    /\ e.calls = 1
    /\ e.srp = s.rp /\ e.sre = Tail(s.rp) /\ e.sci = s.ci /\ e.sa = s.a /\ e.sdi = e.di
    /\ e.cnt = <<s.n, Nnz(s), Nnz(s)>>
O2(e) == IF e.op = "comp" THEN [r |-> ByLength(M(e)), c |-> ByLength(M(e)), rs |-> LenFactors(M(e)), cs |-> <<>>]
         ELSE IF e.op = "setord" THEN [O(e) EXCEPT !.r = IF e.hr = 1 THEN e.r ELSE @, !.c = IF e.hc = 1 THEN e.c ELSE @]
         ELSE IF e.op = "setscale" THEN [O(e) EXCEPT !.rs = e.r, !.cs = e.c] ELSE O(e)
Fwd(e) == e.fwd = 1
\* row scaling and then ordering, forwards; the other way round backwards
ScaleAndOrder(s, t, w) ==
    LET sc == [s EXCEPT !.a = ScaledVals(s, w.rs, w.cs, TRUE)] IN
    /\ WF(t) /\ Nnz(t) = Nnz(s)
    /\ \A i \in Rows(t) : t.rp[i+2] - t.rp[i+1] = s.rp[To(w.r, i) + 2] - s.rp[To(w.r, i) + 1]
    /\ \A i \in Rows(t) : \A p \in Pos(t, i) : Stored(s, To(w.r, i), To(w.c, t.ci[p])) /\ RSame(t.a[p], Entry(sc, To(w.r, i), To(w.c, t.ci[p])))
OrderAndUnscale(s, t, w) ==
    LET r == InvOrder(w.r) c == InvOrder(w.c) IN
    /\ WF(t) /\ Nnz(t) = Nnz(s)
    /\ \A i \in Rows(t) : t.rp[i+2] - t.rp[i+1] = s.rp[To(r, i) + 2] - s.rp[To(r, i) + 1]
    /\ \A i \in Rows(t) : \A p \in Pos(t, i) :
          /\ Stored(s, To(r, i), To(c, t.ci[p]))
          /\ RSame(t.a[p], Times1(Factor(w.cs, t.ci[p]), FALSE, Times1(Factor(w.rs, i), FALSE, Entry(s, To(r, i), To(c, t.ci[p])))))
MatrixCall(e) == e.op \in {"mord", "mscl", "mrs"}
VectorCall(e) == e.op \in {"vord", "vscl"}
MatrixOk(e) == LET s == M(e) t == Shown(e) w == O(e) IN
    CASE e.op = "mord" -> Ordered(s, t, Mode(w.r, Fwd(e)), Mode(w.c, Fwd(e)))
      [] e.op = "mscl" -> Scaled(s, t, w.rs, w.cs, Fwd(e))
      [] e.op = "mrs" -> IF Fwd(e) THEN ScaleAndOrder(s, t, w) ELSE OrderAndUnscale(s, t, w)
      [] OTHER -> t = s
VectorOk(e) == LET w == O(e) IN
    CASE e.op = "vord" -> e.x = OrderedV(X(e), IF e.row = 1 THEN w.r ELSE w.c, Fwd(e))
      [] e.op = "vscl" -> VecSame(e.x, ScaledV(X(e), IF e.row = 1 THEN w.rs ELSE w.cs, Fwd(e)))
      [] OTHER -> e.x = X(e)
Moved(e) == \/ e.op \in {"mord", "mrs"} /\ (O(e).r # <<>> \/ O(e).c # <<>>)
\* s_i * a_ii * s_i = 1 for every point row
UnitOk(e) == LET s == M(e) b == s.bs IN e.op = "unit" => Len(e.s) = s.n * b /\
    \A i \in Rows(s) : \A k \in 1..b : LET f == e.s[i * b + k] IN FLt(F0, f) /\ FClose(FMul(FMul(f, s.a[Diag(s, i)][(k-1) * b + k]), f), F1)
\* the structure is checked first: the other tests read through it
Structure(e) == LET t == Shown(e) IN Len(t.rp) = t.n + 1 /\ Len(t.ci) = Len(M(e).ci) /\ Len(t.a) = Len(t.ci) /\ t.rp[1] = 0 /\ Nnz(t) = Len(t.ci) /\ WF(t)
Why(e) == IF e.crash # 0 THEN "the call crashed"
    ELSE IF ~Structure(e) THEN "the matrix is damaged"
    ELSE FirstFailure(<<
        <<MatrixOk(e), IF MatrixCall(e) THEN "wrong matrix" ELSE "the matrix was changed">>,
        <<VectorOk(e), IF VectorCall(e) THEN "wrong vector" ELSE "the vector was changed">>,
        <<(Moved(e) /\ (O(e).c # <<>> \/ Sorted(M(e)))) => Sorted(Shown(e)), "a row is not sorted by column">>,
        <<Moved(e) => DiagonalsFound(Shown(e), e.di), "a diagonal position is wrong">>,
        <<ComputeOk(e), "the ordering method is not given the matrix">>,
        <<UnitOk(e), "the scaling does not give unit diagonals">>,
        <<(e.isr = 1) <=> (O2(e).r # <<>>), "the presence of a row ordering is misreported">> >>)
Step == More /\ LET w == Why(Line) IN
    /\ Judge(w)
    /\ IF w = "" THEN m' = Shown(Line) /\ x' = Line.x /\ o' = O2(Line) /\ l' = l + 1 ELSE l' = After(l) /\ UNCHANGED <<m, x, o>>
Next == Step \/ (Done /\ UNCHANGED <<m, x, o>>)
================================================================================
