-------------------------------- MODULE T_ILU ---------------------------------
(* Factorizations observed as a whole: position lists, factors, diagnostics.   *)
EXTENDS Diagnostics, Trace
CodeLists(e) == [p \in 1..Nnz(e.m) |-> {<<e.lowerp[k] + 1, e.upperp[k] + 1>> : k \in (e.posptr[p] + 1)..e.posptr[p+1]}]
ListsRight(e, pl) ==
    /\ Len(e.posptr) = Nnz(e.m) + 1 /\ e.posptr[1] = 0
    /\ \A p \in AllPos(e.m) : e.posptr[p] <= e.posptr[p+1]
    /\ e.posptr[Nnz(e.m) + 1] = Len(e.lowerp) /\ Len(e.lowerp) = Len(e.upperp)
    /\ \A p \in AllPos(e.m) : /\ CodeLists(e)[p] = pl[p].pairs
                              /\ e.posptr[p+1] - e.posptr[p] = Cardinality(pl[p].pairs)
ScaledOf(e) == IF e.scaling = 1 THEN Scaled(e.m, ScaleVec(e.m)) ELSE e.m
Kind(k) == CASE k = 0 -> "zero" [] k = 1 -> "original" [] k = 2 -> "sgs" [] k = 3 -> "none"
\* the factors with the diagonal blocks of U themselves
Plain(a, pl, f) == [p \in AllPos(a) |-> IF a.bs > 1 /\ pl[p].row = pl[p].col THEN BInv(f[p]) ELSE f[p]]
FFiniteAll(f) == \A p \in DOMAIN f : \A k \in DOMAIN f[p] : FFinite(f[p][k])
ScaleRight(e) == e.scaling = 1 => Len(e.scale) = e.m.n * e.m.bs /\
    \A i \in Rows(e.m) : BSame([r \in 1..e.m.bs |-> e.scale[i*e.m.bs + r]], ScaleVec(e.m)[i+1])
\* relative to the size of the matrix, which rounding errors follow
SizeOf(a) == SumF([p \in AllPos(a) |-> AbsSum(a.a[p])])

Factor(e) ==
    IF e.crash # 0 THEN "the factorization crashed" ELSE
    LET pl == PositionLists(e.m)
        a == ScaledOf(e)
        g == Plain(a, pl, e.f)
    IN FirstFailure(<<
        <<ListsRight(e, pl), "the position lists are not those of the pattern">>,
        <<ScaleRight(e), "the scaling is not that of the diagonal">>,
        <<e.seq = 1 /\ e.nsweeps > 0 => IsFactorization(a, pl, g), "the product of the factors is not the matrix on its pattern">>,
        <<e.intact = 1, "the matrix was changed">> >>)
\* diagnostics: info = remainder, initial remainder, U min, U avg, L min, L avg; fsame: factors equal those obtained without diagnostics
Info(e) ==
    IF e.crash # 0 THEN "the factorization crashed" ELSE
    LET pl == PositionLists(e.m)
        a == ScaledOf(e)
        g == Plain(a, pl, e.f)
        g0 == Guess(Kind(e.init), a, pl, e.f0)
        size == SizeOf(a)
        near(x, y, s) == ~FFinite(y) \/ FCloseM(x, y, s)
    IN IF ~FFiniteAll(g) \/ ~FFiniteAll(g0) THEN "" ELSE FirstFailure(<<
        <<e.fsame = 1, "diagnostics changed the factors">>,
        <<near(e.info[2], Remainder(a, pl, g0), size), "wrong initial remainder">>,
        <<near(e.info[1], Remainder(a, pl, g), size), "wrong remainder">>,
        <<near(e.info[3], MinOf(Doms(a, pl, g, UpperDom)), F1), "wrong minimum diagonal dominance of U">>,
        <<near(e.info[4], Average(Doms(a, pl, g, UpperDom)), F1), "wrong average diagonal dominance of U">>,
        <<near(e.info[5], MinOf(Doms(a, pl, g, LowerDom)), F1), "wrong minimum diagonal dominance of L">>,
        <<near(e.info[6], Average(Doms(a, pl, g, LowerDom)), F1), "wrong average diagonal dominance of L">>,
        <<e.intact = 1, "the matrix was changed">> >>)
Lists(e) == IF e.crash # 0 THEN "crashed" ELSE IF ListsRight(e, PositionLists(e.m)) THEN "" ELSE "the position lists are not those of the pattern"
Norm(e) == IF e.crash # 0 THEN "maxnorm crashed" ELSE IF FEq(e.norm, MaxAbs(e.x)) THEN "" ELSE "maxnorm is not the largest absolute value"
Why(e) == CASE e.op = "factor" -> Factor(e) [] e.op = "info" -> Info(e) [] e.op = "lists" -> Lists(e) [] e.op = "norm" -> Norm(e)
Init == l = 1
Next == (More /\ Judge(Why(Line)) /\ l' = l + 1) \/ Done
===============================================================================
