------------------------------ MODULE T_Assembly ------------------------------
(* Assembly sessions observed on the real code: each line is one call with its *)
(* arguments and, afterwards, the arrays of every live matrix.  The call is    *)
(* performed here with the operators of Assembly, and what the code shows must *)
(* be what the specification then has, for every matrix - also for those the   *)
(* call does not address.                                                      *)
EXTENDS Assembly, FloatRing, Trace
CONSTANT Objects
VARIABLE objs            \* per object <<its matrix>>, or <<>>
None == <<>>
TUndef == <<>>
Init == l = 1 /\ objs = [k \in Objects |-> None]
Cur(e) == IF e.step = 1 THEN [k \in Objects |-> None] ELSE objs
Full(m) == \A p \in AllPos(m) : m.a[p] # Undef
Creating == {"new", "null", "wrap", "raw", "sr", "copy"}
Apply(o, e) ==
    LET m == IF e.op \in Creating THEN <<>> ELSE o[e.k][1] IN
    CASE e.op \in {"new", "struct", "null"} -> Blank(e.pat.n, e.pat.bs, e.pat.rp, e.pat.ci)
      [] e.op \in {"wrap", "raw", "sr"} -> e.m
      [] e.op = "copy" -> o[e.j][1]
      [] e.op = "zero" -> Zeroed(m)
      [] e.op = "dzero" -> DiagZeroed(m)
      [] e.op = "sub" -> Submitted(m, e.u.i, e.u.j, e.u.h, e.u.w, e.u.b)
      [] e.op \in {"upd", "udg"} -> Updated(m, e.u.i, e.u.j, e.u.h, e.u.w, e.u.b)
      [] e.op = "par" -> AllUpdated(m, e.us)
      [] e.op = "scale" -> Scaled2(m, LAMBDA v : BTimes(e.f, v))
      [] OTHER -> m
Next1(e) == [Cur(e) EXCEPT ![e.k] = IF e.op = "del" THEN None ELSE <<Apply(Cur(e), e)>>]
\* one matrix as the code shows it
Shows(m, s) ==
    /\ s.n = m.n /\ s.dim = m.n * m.bs /\ s.nnzb = Nnz(m) /\ s.nbst = Nnz(m)
    /\ s.rp = m.rp /\ s.ci = m.ci
    /\ Len(s.di) = m.n /\ \A k \in 1..m.n : Stored(m, k-1, k-1) => s.di[k] + 1 = Diag(m, k-1)
    /\ Len(s.re) = m.n /\ \A k \in 1..m.n : s.re[k] = m.rp[k+1]
ShowsValues(m, s) == Len(s.a) = Nnz(m) /\ \A p \in AllPos(m) : m.a[p] = Undef \/ RSame(m.a[p], s.a[p])
Bool(b) == IF b THEN 1 ELSE 0
Near(a, b, tol) == \A q \in DOMAIN a : FLe(FAbs(FSub(a[q], b[q])), tol)
\* equality is reported part by part; after a difference in size the remaining parts say nothing
EqualOk(a, b, tol, r) ==
    IF a.n # b.n THEN r[1] = 0
    ELSE /\ r[1] = 1 /\ r[2] = Bool(a.rp = b.rp)
         /\ Nnz(a) = Nnz(b) =>
              /\ r[3] = Bool(a.ci = b.ci)
              /\ Full(a) /\ Full(b) => r[4] = Bool(\A p \in AllPos(a) : Near(a.a[p], b.a[p], tol))
              /\ HasDiag(a) /\ HasDiag(b) => r[5] = Bool(\A i \in Rows(a) : Diag(a, i) = Diag(b, i))
DVal(m, i) == m.a[Diag(m, i)][1]
ZeroRows(m) == {i \in Rows(m) : FEq(DVal(m, i), F0)}
RECURSIVE DProduct(_, _)
DProduct(m, k) == IF k = 0 THEN F1 ELSE FMul(DProduct(m, k - 1), DVal(m, k - 1))
DAbs(m) == [k \in 1..m.n |-> FAbs(DVal(m, k-1))]
RECURSIVE Largest(_, _), Least(_, _)
Largest(s, k) == IF k = 1 THEN s[1] ELSE FMax(s[k], Largest(s, k - 1))
Least(s, k) == IF k = 1 THEN s[1] ELSE FMin(s[k], Least(s, k - 1))
QueryOk(m, e) ==
    /\ e.zrow = (IF ZeroRows(m) = {} THEN -1 ELSE Min(ZeroRows(m)))
    /\ e.nzero = Cardinality(ZeroRows(m))
    /\ FAllClose(e.dq, <<DProduct(m, m.n), FSum(DAbs(m)), Least(DAbs(m), m.n), Largest(DAbs(m), m.n)>>)
Why(e) ==
    LET o == Next1(e) live == {k \in Objects : o[k] # None} IN
    IF e.crash # 0 THEN "the call crashed or threw" ELSE
    FirstFailure(<<
      <<\A k \in live : Len(e.objs[k]) = 1 /\ Shows(o[k][1], e.objs[k][1]), "wrong structure">>,
      <<\A k \in live : Len(e.objs[k]) = 1 /\ ShowsValues(o[k][1], e.objs[k][1]), "a stored entry has a wrong value">>,
      <<e.op = "raw" => e.nulled = 1, "the arrays taken over are still in the raw matrix">>,
      <<e.op = "equal" => EqualOk(o[e.k][1], o[e.j][1], e.tol, e.eq), "equality wrongly reported">>,
      <<e.op = "query" => QueryOk(o[e.k][1], e), "wrong answer about the diagonal">> >>)
Step == More /\ LET w == Why(Line) IN
                 /\ Judge(w)
                 /\ IF w = "" THEN objs' = Next1(Line) /\ l' = l + 1 ELSE l' = After(l) /\ objs' = objs
Next == Step \/ (Done /\ UNCHANGED objs)
===============================================================================
