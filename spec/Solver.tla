-------------------------------- MODULE Solver --------------------------------
(* What a solver object does when run sequentially, as a function of what its  *)
(* latest compute prepared and of the matrix it views (cur).  Options o:       *)
(* method, scaling, napply, ainit.                                             *)
EXTENDS Relax
Ilu == {"ilu0", "seqilu0", "sfilu0", "sapilu0", "async_level_ilu0"}
Sgs == {"sgs", "level_sgs"}
Methods == {"none", "jacobi", "gs", "cscbgs"} \cup Sgs \cup Ilu
RelaxAvailable(method) == method \in {"jacobi", "gs"} \cup Sgs
\* what compute prepares from the matrix m
Prep(o, m) ==
    IF o.method \in Ilu
    THEN LET sv == IF o.scaling THEN ScaleVec(m) ELSE <<>>
             a == IF o.scaling THEN Scaled(m, sv) ELSE m
         IN [sv |-> sv, lu |-> FactorMatrix(a, Factors(a, PositionLists(a)))]
    ELSE IF o.method = "none" THEN [d |-> <<>>]
    ELSE [d |-> InvDiag(m), m |-> m]
\* entrywise product of a scaling and a vector
VScaleBy(s, x) == [k \in 1..Len(x) |-> RScaleV(s[k], x[k])]
LUSolve(lu, r) == LET y == Sweep("lower", "up", lu, <<>>, r, Zeros(lu))
                  IN Sweep("upper", "down", lu, InvDiag(lu), y, Zeros(lu))
ApplyOf(o, prep, cur, r, z0) ==
    CASE o.method = "none" -> r
      [] o.method = "jacobi" -> [k \in 1..Len(r) |-> VAct(prep.d[k], r[k])]
      [] o.method = "gs" -> RunSweeps("relax", Repeat(<<"up">>, o.napply), cur, prep.d, r, z0)
      [] o.method \in Sgs -> LET y == Sweep("forward", "up", cur, prep.d, r, Zeros(cur))
                             IN Sweep("backward", "down", cur, prep.d, y, Zeros(cur))
      [] o.method = "cscbgs" -> Sweep("upper", "down", prep.m, prep.d, r, Zeros(cur))
      [] o.method \in Ilu -> IF o.scaling THEN VScaleBy(prep.sv, LUSolve(prep.lu, VScaleBy(prep.sv, r)))
                             ELSE LUSolve(prep.lu, r)
\* one step of Jacobi relaxation, and when it stops: change is how far step k moved x, first how far the first step did
JStep(d, cur, b, x) == [k \in 1..cur.n |-> RowEq("relax", cur, d, b, k-1, LAMBDA p : x[cur.ci[p] + 1])]
Stops(t, change, first) == NLess(change, t.atol) \/ NLess(change, NTimes(t.rtol, first)) \/ NLess(NTimes(t.dtol, first), change)
RECURSIVE JacobiRun(_, _, _, _, _, _, _)
JacobiRun(d, cur, b, x, t, k, first) ==
    IF k >= t.maxits THEN x
    ELSE LET y == JStep(d, cur, b, x)
             c == VDist(y, x)
             f == IF k = 0 THEN c ELSE first
         IN IF t.ctol /\ Stops(t, c, f) THEN y ELSE JacobiRun(d, cur, b, y, t, k + 1, f)
RelaxOf(o, prep, cur, b, x0, t) ==
    CASE o.method = "jacobi" -> JacobiRun(prep.d, cur, b, x0, t, 0, VDist(x0, x0))
      [] o.method = "gs" -> RunSweeps("relax", Repeat(<<"up">>, t.maxits), cur, prep.d, b, x0)
      [] o.method \in Sgs -> RunSweeps("relax", Repeat(<<"up", "down">>, t.maxits), cur, prep.d, b, x0)
===============================================================================
