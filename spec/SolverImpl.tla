------------------------------ MODULE SolverImpl ------------------------------
(* A solver object as it works, with the buffers it keeps between calls        *)
(* (inverted diagonals, factors, scaling, the intermediate vector), run by one *)
(* thread, and any history of value changes, computes, applications and        *)
(* relaxations.  It must be indistinguishable from module Solver: the result   *)
(* of a call depends only on the latest compute and the current values, never  *)
(* on what the buffers held before.                                            *)
EXTENDS Solver
CONSTANTS Faults               \* what the object fails to renew (empty: the code as it is)
VARIABLES o,                     \* options: method, scaling, nbuild, napply, finit, ainit
          cur,                   \* the matrix viewed
          dblk, ilu, sv, ytmp, cm,   \* the object's buffers, <<>> before the first compute
          result, expected,      \* of the latest call
          call,                  \* the latest application's right-hand side, <<>> otherwise
          prep                   \* history: Prep at the latest compute
ovars == <<o, cur, dblk, ilu, sv, ytmp, cm, result, expected, call, prep>>
Computed == prep # <<>>
Create(opt, m) == /\ o = opt /\ cur = m /\ dblk = <<>> /\ ilu = <<>> /\ sv = <<>> /\ ytmp = <<>> /\ cm = <<>>
                  /\ result = <<>> /\ expected = <<>> /\ call = <<>> /\ prep = <<>>
SetValues(a) == cur' = [cur EXCEPT !.a = a] /\ result' = <<>> /\ expected' = <<>> /\ call' = <<>> /\ UNCHANGED <<o, dblk, ilu, sv, ytmp, cm, prep>>
RECURSIVE FactorSweep(_, _, _, _), FactorSweeps(_, _, _, _)
FactorSweep(a, pl, f, p) == IF p > Nnz(a) THEN f ELSE FactorSweep(a, pl, [f EXCEPT ![p] = Equation(a, pl[p], p, LAMBDA q : f[q])], p + 1)
FactorSweeps(a, pl, f, n) == IF n = 0 THEN f ELSE FactorSweeps(a, pl, FactorSweep(a, pl, f, 1), n - 1)
Compute ==
    /\ IF o.method \in Ilu
       THEN LET f0 == IF ilu = <<>> THEN cur.a ELSE ilu
                s == IF o.scaling THEN ScaleVec(cur) ELSE <<>>
                a == IF o.scaling THEN Scaled(cur, s) ELSE cur
                pl == PositionLists(cur)
            IN /\ sv' = s /\ ilu' = FactorSweeps(a, pl, Guess(o.finit, a, pl, f0), o.nbuild)
               /\ UNCHANGED <<dblk, cm>>
       ELSE /\ dblk' = IF o.method = "none" THEN <<>> ELSE IF "diagonal" \in Faults /\ dblk # <<>> THEN dblk ELSE InvDiag(cur)
            /\ cm' = IF o.method = "cscbgs" THEN (IF "columns" \in Faults /\ cm # <<>> THEN cm ELSE cur) ELSE <<>>
            /\ UNCHANGED <<ilu, sv>>
    /\ ytmp' = IF ytmp = <<>> THEN Zeros(cur) ELSE ytmp
    /\ prep' = Prep(o, cur)
    /\ result' = <<>> /\ expected' = <<>> /\ call' = <<>> /\ UNCHANGED <<o, cur>>
Sweeps2(kind, dir, m, d, b, x) == RunSweeps(kind, Repeat(<<dir>>, o.napply), m, d, b, x)
Apply(r, z0) ==
    /\ Computed
    /\ LET lu == [cur EXCEPT !.a = ilu]
           y0 == IF o.ainit = "none" \/ o.method \in {"level_sgs", "async_level_ilu0"} THEN ytmp ELSE Zeros(cur)
           zr == IF o.scaling THEN VScaleBy(sv, r) ELSE r
           y == CASE o.method \in Ilu -> Sweeps2("lower", "up", lu, <<>>, zr, y0)
                  [] o.method \in Sgs -> Sweeps2("forward", "up", cur, dblk, r, y0)
                  [] OTHER -> ytmp
           z1 == CASE o.method \in {"level_sgs"} -> z0 [] o.method = "async_level_ilu0" -> zr
                   [] o.ainit = "jacobi" -> y [] o.ainit = "zero" -> Zeros(cur) [] OTHER -> z0
           z == CASE o.method = "none" -> r
                  [] o.method = "jacobi" -> [k \in 1..cur.n |-> VAct(dblk[k], r[k])]
                  [] o.method = "gs" -> Sweeps2("relax", "up", cur, dblk, r, z0)
                  [] o.method = "cscbgs" -> Sweeps2("upper", "down", cm, dblk, r, z0)
                  [] o.method \in Sgs -> Sweeps2("backward", "down", cur, dblk, y, z1)
                  [] o.method \in Ilu -> Sweeps2("upper", "down", lu, InvDiag(lu), y, z1)
       IN /\ ytmp' = y
          /\ result' = IF o.method \in Ilu /\ o.scaling THEN VScaleBy(sv, z) ELSE z
          /\ call' = r
          /\ expected' = ApplyOf(o, prep, cur, r, z0)
    /\ UNCHANGED <<o, cur, dblk, ilu, sv, cm, prep>>
RelaxCall(b, x0, t) ==
    /\ Computed /\ RelaxAvailable(o.method)
    /\ result' = CASE o.method = "jacobi" -> JacobiRun(dblk, cur, b, x0, t, 0, VDist(x0, x0))
                   [] o.method = "gs" -> RunSweeps("relax", Repeat(<<"up">>, t.maxits), cur, dblk, b, x0)
                   [] OTHER -> RunSweeps("relax", Repeat(<<"up", "down">>, t.maxits), cur, dblk, b, x0)
    /\ call' = <<>>
    /\ expected' = RelaxOf(o, prep, cur, b, x0, t)
    /\ UNCHANGED <<o, cur, dblk, ilu, sv, ytmp, cm, prep>>
\* ---- properties ----
Faithful == result # <<>> => VecSame(result, expected)
===============================================================================
