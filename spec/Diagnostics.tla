------------------------------ MODULE Diagnostics -----------------------------
(* The numbers reported about a factorization.  f holds the factors with the   *)
(* diagonal blocks of U themselves (not inverted).                             *)
EXTENDS ILU, FloatRing
AbsSum(blk) == FSum([k \in 1..Len(blk) |-> FAbs(blk[k])])
SumF(s) == FSum(s)
\* sum of the absolute values of A - LU over the stored positions
Remainder(a, pl, f) == SumF([p \in AllPos(a) |-> AbsSum(BSub(a.a[p], LUAt(a, pl[p], p, f)))])
\* point row r (1..bs) of a block
PointRow(blk, bs, r) == [c \in 1..bs |-> blk[(r-1)*bs + c]]
LowerOff(a, pl, f, i, r) == SumF([k \in 1..Cardinality(Pos(a, i)) |->
        LET p == a.rp[i+1] + k IN IF a.ci[p] < i THEN AbsSum(PointRow(f[p], a.bs, r)) ELSE F0])
UpperOff(a, pl, f, i, r) == SumF([k \in 1..Cardinality(Pos(a, i)) |->
        LET p == a.rp[i+1] + k
        IN IF a.ci[p] < i THEN F0 ELSE IF a.ci[p] = i THEN FSub(AbsSum(PointRow(f[p], a.bs, r)), FAbs(f[p][(r-1)*a.bs + r]))
           ELSE AbsSum(PointRow(f[p], a.bs, r))])
PointRows(a) == [k \in 1..(a.n * a.bs) |-> <<(k-1) \div a.bs, ((k-1) % a.bs) + 1>>]
\* degree of diagonal dominance of a row of L (unit diagonal) and of U
LowerDom(a, pl, f, ir) == FSub(F1, LowerOff(a, pl, f, ir[1], ir[2]))
UpperDom(a, pl, f, ir) == FSub(F1, FDiv(UpperOff(a, pl, f, ir[1], ir[2]), FAbs(f[Diag(a, ir[1])][(ir[2]-1)*a.bs + ir[2]])))
RECURSIVE MinOf(_)
MinOf(s) == IF Len(s) = 1 THEN s[1] ELSE FMin(s[1], MinOf(Tail(s)))
RECURSIVE MaxAbs(_)
MaxAbs(s) == IF s = <<>> THEN F0 ELSE FMax(FAbs(s[1]), MaxAbs(Tail(s)))
Doms(a, pl, f, Dom(_, _, _, _)) == LET pr == PointRows(a) IN [k \in 1..Len(pr) |-> Dom(a, pl, f, pr[k])]
Average(s) == FDiv(SumF(s), FOfInt(Len(s)))
===============================================================================
