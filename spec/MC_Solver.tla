------------------------------- MODULE MC_Solver ------------------------------
EXTENDS SolverImpl, Field, TLC
CONSTANTS N, Depth, Seeds, Dense
VARIABLE depth
Square == (0..(N-1)) \X (0..(N-1))
RowSeq(pat, i) == SetToSortSeq({e \in pat : e[1] = i}, LAMBDA u, v : u[2] < v[2])
AllEntries(pat) == FlattenSeq([k \in 1..N |-> RowSeq(pat, k-1)])
Hash(s, k) == ((s * 7919 + k * 10473 + s * k * 31 + k * k * s) \div 3) % P
Mat(pat, s) == [n |-> N, bs |-> 1, rp |-> [k \in 1..(N+1) |-> Cardinality({e \in pat : e[1] < k - 1})],
                ci |-> [k \in 1..Len(AllEntries(pat)) |-> AllEntries(pat)[k][2]], a |-> [k \in 1..Cardinality(pat) |-> Hash(s, k)]]
Off == {e \in Square : e[1] # e[2]}
Pats == {{e \in Square : e[1] = e[2]} \cup x : x \in IF Dense THEN {Off} ELSE SUBSET Off}
Good(m) == /\ \A i \in Rows(m) : RRegular(m.a[Diag(m, i)])
           /\ Pivots(m, PositionLists(m), Factors(m, PositionLists(m)))
           /\ LET a == Scaled(m, ScaleVec(m)) IN Pivots(a, PositionLists(a), Factors(a, PositionLists(a)))
Vec(s) == [k \in 1..N |-> Hash(s, k)]
Opts == [method : Methods, scaling : BOOLEAN, nbuild : {1}, napply : {1, 2}, finit : {"zero", "original", "sgs", "none"}, ainit : {"zero", "jacobi"}]
\* options that matter for the method
Relevant(x) == /\ x.method \notin Ilu => x.scaling = FALSE /\ x.finit = "zero"
               /\ x.method \notin Ilu \cup Sgs => x.ainit = "zero"
               /\ x.method \in {"none", "jacobi"} => x.napply = 1
               /\ x.method \in {"level_sgs", "async_level_ilu0"} => x.napply = 1 /\ x.ainit = "zero"
Tol(c, n) == [ctol |-> c, maxits |-> n, atol |-> 1, rtol |-> 0, dtol |-> 2]
MCInit == /\ \E pat \in Pats : \E s \in 1..Seeds : \E x \in Opts : Relevant(x) /\ Good(Mat(pat, s)) /\ Create(x, Mat(pat, s))
          /\ depth = 0
MCNext == /\ depth < Depth /\ depth' = depth + 1
          /\ \/ \E s \in 1..Seeds : LET a == [k \in DOMAIN cur.a |-> Hash(s, k)] IN Good([cur EXCEPT !.a = a]) /\ SetValues(a)
             \/ Compute
             \/ \E s \in 4..5 : Apply(Vec(s), Vec(s + 7))
             \/ \E c \in BOOLEAN, n \in {0, 2} : RelaxCall(Vec(4), Vec(9), Tol(c, n))
mcvars == <<ovars, depth>>
\* what the sweeps of Solver mean as equations, for applications right after a compute.
\* exact factors: L (U z) = r
Fresh == call # <<>> /\ (o.method \notin Ilu \cup {"none"} => prep.m = cur)
SolvesLU == Fresh /\ o.method \in Ilu /\ ~o.scaling => LTimes(prep.lu, prep.lu.a, UTimes(prep.lu, prep.lu.a, result)) = call
\* symmetric Gauss-Seidel: (D + L) D^-1 (D + U) z = r;  column-oriented: (D + U) z = r;  Jacobi: D z = r
Upper(m, x) == [k \in 1..N |-> SumV(LAMBDA p : VAct(m.a[p], x[m.ci[p]+1]), {p \in Pos(m, k-1) : m.ci[p] >= k-1}, 0)]
Lower(m, x) == [k \in 1..N |-> SumV(LAMBDA p : VAct(m.a[p], x[m.ci[p]+1]), {p \in Pos(m, k-1) : m.ci[p] <= k-1}, 0)]
SolvesGS == Fresh =>
    /\ o.method \in Sgs => Lower(cur, JacobiApply(cur, Upper(cur, result))) = call
    /\ o.method = "cscbgs" => Upper(cur, result) = call
    /\ o.method = "jacobi" => [k \in 1..N |-> GMul(cur.a[Diag(cur, k-1)], result[k])] = call
===============================================================================
