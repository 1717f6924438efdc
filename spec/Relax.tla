--------------------------------- MODULE Relax --------------------------------
(* Row equations of the triangular solves and relaxations, and what the        *)
(* methods compute when carried out sequentially.  d[i+1] is the inverse of    *)
(* the diagonal (block) of row i.                                              *)
EXTENDS ILU

\* the stored positions on which row i's equation depends
Deps(kind, m, i) == {p \in Pos(m, i) : CASE kind \in {"lower", "forward"} -> m.ci[p] < i
                                         [] kind \in {"upper", "backward"} -> m.ci[p] > i
                                         [] kind = "relax" -> m.ci[p] # i}
\* the new value of x_i, given val(p) for the value of x at the column of position p
RowEq(kind, m, d, b, i, val(_)) ==
    LET s == SumV(LAMBDA p : VAct(m.a[p], val(p)), Deps(kind, m, i), VZero(m.bs))
    IN CASE kind = "lower" -> VSub(b[i+1], s)                                          \* unit diagonal
         [] kind \in {"upper", "forward", "relax"} -> VAct(d[i+1], VSub(b[i+1], s))
         [] kind = "backward" -> VSub(b[i+1], VAct(d[i+1], s))
Update1(kind, m, d, b, x, i) == [x EXCEPT ![i+1] = RowEq(kind, m, d, b, i, LAMBDA p : x[m.ci[p] + 1])]
RECURSIVE UpRows(_, _, _, _, _, _), DownRows(_, _, _, _, _, _)
UpRows(kind, m, d, b, x, i) == IF i = m.n THEN x ELSE UpRows(kind, m, d, b, Update1(kind, m, d, b, x, i), i + 1)
DownRows(kind, m, d, b, x, i) == IF i < 0 THEN x ELSE DownRows(kind, m, d, b, Update1(kind, m, d, b, x, i), i - 1)
\* one sequential sweep
Sweep(kind, dir, m, d, b, x) == IF dir = "up" THEN UpRows(kind, m, d, b, x, 0) ELSE DownRows(kind, m, d, b, x, m.n - 1)
RECURSIVE Sweeps(_, _, _, _, _, _, _)
\* dirs: the directions of the sweeps, in order
Sweeps(kind, dirs, m, d, b, x, k) == IF k > Len(dirs) THEN x ELSE Sweeps(kind, dirs, m, d, b, Sweep(kind, dirs[k], m, d, b, x), k + 1)
RunSweeps(kind, dirs, m, d, b, x) == Sweeps(kind, dirs, m, d, b, x, 1)
Repeat(dirs, n) == [k \in 1..(n * Len(dirs)) |-> dirs[((k-1) % Len(dirs)) + 1]]
Zeros(m) == [k \in 1..m.n |-> VZero(m.bs)]
InvDiag(m) == [k \in 1..m.n |-> RInv(m.a[Diag(m, k-1)])]

\* ---- the solution of a row-equation system: every row satisfies its equation ----
Solves(kind, m, d, b, x) == \A i \in Rows(m) : VSame(x[i+1], RowEq(kind, m, d, b, i, LAMBDA p : x[m.ci[p] + 1]))

\* ---- defining operators ----
JacobiApply(m, r) == [k \in 1..m.n |-> VAct(InvDiag(m)[k], r[k])]
\* symmetric Gauss-Seidel: y = D^-1 (r - L y), then z = y - D^-1 U z
SGSApply(m, r) == LET d == InvDiag(m)
                      y == Sweep("forward", "up", m, d, r, Zeros(m))
                  IN Sweep("backward", "down", m, d, y, Zeros(m))
\* backward substitution: (D + U) z = r
BGSApply(m, r) == Sweep("upper", "down", m, InvDiag(m), r, Zeros(m))
GSRun(m, b, x, n) == RunSweeps("relax", Repeat(<<"up">>, n), m, InvDiag(m), b, x)
SGSRun(m, b, x, n) == RunSweeps("relax", Repeat(<<"up", "down">>, n), m, InvDiag(m), b, x)
JacobiStep(m, b, x) == LET d == InvDiag(m) IN [k \in 1..m.n |-> RowEq("relax", m, d, b, k-1, LAMBDA p : x[m.ci[p] + 1])]
\* z with L U z = r, f the factors of m; sv the scaling, or <<>>
FactorMatrix(m, f) == [m EXCEPT !.a = f]
LUApply(m, f, r) == LET lu == FactorMatrix(m, f)
                        y == Sweep("lower", "up", lu, <<>>, r, Zeros(m))
                    IN Sweep("upper", "down", lu, InvDiag(lu), y, Zeros(m))
\* (L U) z, entry by entry: L is unit lower, U upper triangular on the pattern
UTimes(m, f, z) == [k \in 1..m.n |-> SumV(LAMBDA p : VAct(f[p], z[m.ci[p] + 1]), {p \in Pos(m, k-1) : m.ci[p] >= k-1}, VZero(m.bs))]
LTimes(m, f, y) == [k \in 1..m.n |-> VAdd(y[k], SumV(LAMBDA p : VAct(f[p], y[m.ci[p] + 1]), {p \in Pos(m, k-1) : m.ci[p] < k-1}, VZero(m.bs)))]
===============================================================================
