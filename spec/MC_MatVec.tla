------------------------------ MODULE MC_MatVec -------------------------------
(* All patterns of 2x2 and a few of 3x3 (empty rows included), all values and  *)
(* vectors over a small field, every interleaving of 2 threads.                *)
EXTENDS MatVec, Field, TLC
N == 2
MCOwner(k, n) == IF k < (n+1) \div 2 THEN 1 ELSE 2
Patterns == SUBSET ((0..(N-1)) \X (0..(N-1)))
RowSeq(pat, i) == SetToSortSeq({e \in pat : e[1] = i}, LAMBDA a, b : a[2] < b[2])
RowPtr(pat) == [k \in 1..(N+1) |-> Cardinality({e \in pat : e[1] < k - 1})]
AllEntries(pat) == FlattenSeq([k \in 1..N |-> RowSeq(pat, k-1)])
Mat(pat, v) == [n |-> N, bs |-> 1, rp |-> RowPtr(pat),
                ci |-> [k \in 1..Len(AllEntries(pat)) |-> AllEntries(pat)[k][2]], a |-> v]
Init == \E pat \in Patterns : \E v \in [1..Cardinality(pat) -> 1..(P-1)] : \E f \in {"row", "col"} :
        \E xx \in [1..N -> Elem] : \E a \in {1, P-1} : \E b \in {0, 1, 2 % P} :
          /\ m = Mat(pat, v) /\ form = f /\ alpha = a /\ beta = b /\ x = xx
          /\ y0 = [k \in 1..N |-> k % P] /\ z = y0 /\ phase = "start" /\ todo = {}
Spec == Init /\ [][MVNext]_mvvars
===============================================================================
