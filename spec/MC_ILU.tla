-------------------------------- MODULE MC_ILU --------------------------------
(* The sequential factorization, position by position: for every pattern with  *)
(* a full diagonal and sampled values, each position satisfies the defining    *)
(* property as soon as it is computed and keeps it; the result is the only     *)
(* factorization on the pattern; one more sweep changes nothing.               *)
EXTENDS ILU, Field, TLC
CONSTANTS N, Seeds
VARIABLES a, pl, f
RowSeq(pat, i) == SetToSortSeq({e \in pat : e[1] = i}, LAMBDA x, y : x[2] < y[2])
RowPtr(pat) == [k \in 1..(N+1) |-> Cardinality({e \in pat : e[1] < k - 1})]
AllEntries(pat) == FlattenSeq([k \in 1..N |-> RowSeq(pat, k-1)])
Mat(pat, v) == [n |-> N, bs |-> 1, rp |-> RowPtr(pat), ci |-> [k \in 1..Len(AllEntries(pat)) |-> AllEntries(pat)[k][2]], a |-> v]
Square == (0..(N-1)) \X (0..(N-1))
DiagSet == {e \in Square : e[1] = e[2]}
Pats == {DiagSet \cup o : o \in SUBSET (Square \ DiagSet)}
Val(pat, s) == [k \in 1..Cardinality(pat) |-> (((s * 7919 + k * 10473 + s * k * 31 + k * k * s) \div 3) % P)]
Init == \E pat \in Pats : \E s \in 1..Seeds : a = Mat(pat, Val(pat, s)) /\ pl = PositionLists(a) /\ f = <<>>
Next == /\ Len(f) < Nnz(a)
        /\ LET p == Len(f) + 1 IN
           /\ pl[p].diag # 0 => RRegular(f[pl[p].diag])
           /\ f' = Append(f, Equation(a, pl[p], p, LAMBDA q : f[q]))
        /\ UNCHANGED <<a, pl>>
Computed == 1..Len(f)
PrefixRight == \A p \in Computed : RSame(LUAt(a, pl[p], p, f), a.a[p])
\* what a position needs has been computed before it
NeedsBefore == \A p \in AllPos(a) : \A q \in Needs(pl[p]) : q < p
Whole == Len(f) = Nnz(a) => IsFactorization(a, pl, f) /\ f = Factors(a, pl)
\* any other values on the pattern: changing one position of the result breaks the property there
Unique == Len(f) = Nnz(a) /\ Pivots(a, pl, f) =>
    \A p \in AllPos(a) : \A v \in Elem : v # f[p] => ~RSame(LUAt(a, pl[p], p, [f EXCEPT ![p] = v]), a.a[p])
===============================================================================
