-------------------------------- MODULE Sparse --------------------------------
(* Sparse square matrices as the library stores them, and what they mean.      *)
(* A matrix is a record [n, bs, rp, ci, a]: n block-rows of block size bs,     *)
(* 0-based row pointers rp and column indices ci, and the sequence a of ring   *)
(* elements.  Rows and columns are numbered from 0; positions (indices into    *)
(* ci and a) are numbered from 1 here, from 0 in the code and its traces.      *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Ring

Rows(m) == 0..(m.n - 1)
Nnz(m) == m.rp[m.n + 1]
Pos(m, i) == (m.rp[i+1] + 1)..m.rp[i+2]        \* the positions of row i
AllPos(m) == 1..Nnz(m)
RowOf(m, p) == CHOOSE i \in Rows(m) : p \in Pos(m, i)
At(m, i, j) == {p \in Pos(m, i) : m.ci[p] = j} \* where (i, j) is stored
Stored(m, i, j) == At(m, i, j) # {}
Where(m, i, j) == CHOOSE p \in At(m, i, j) : TRUE
Diag(m, i) == Where(m, i, i)
HasDiag(m) == \A i \in Rows(m) : Stored(m, i, i)

\* the entry a matrix has at (i, j): what is stored there, zero elsewhere
Entry(m, i, j) == IF Stored(m, i, j) THEN m.a[Where(m, i, j)] ELSE RZero(m.bs)

\* consistent structure: monotone row pointers, indices in range, no duplicates
WF(m) == /\ Len(m.rp) = m.n + 1 /\ m.rp[1] = 0
         /\ \A i \in Rows(m) : m.rp[i+1] <= m.rp[i+2]
         /\ Len(m.ci) >= Nnz(m) /\ Len(m.a) >= Nnz(m)
         /\ \A p \in AllPos(m) : m.ci[p] \in Rows(m)
         /\ \A i \in Rows(m) : \A p, q \in Pos(m, i) : m.ci[p] = m.ci[q] => p = q
Sorted(m) == \A i \in Rows(m) : \A p \in Pos(m, i) : (p + 1) \in Pos(m, i) => m.ci[p] < m.ci[p+1]
SymPattern(m) == \A i, j \in Rows(m) : Stored(m, i, j) <=> Stored(m, j, i)
Pattern(m) == {<<i, j>> \in Rows(m) \X Rows(m) : Stored(m, i, j)}

\* sums over sets of positions
SumV(f(_), S, zero) == MapThenFoldSet(VAdd, zero, f, LAMBDA T : Min(T), S)
SumR(f(_), S, zero) == MapThenFoldSet(RAdd, zero, f, LAMBDA T : Min(T), S)

\* x[j+1] is the vector's (block) entry j
Dot(m, i, S, x) == SumV(LAMBDA p : VAct(m.a[p], x[m.ci[p] + 1]), S, VZero(m.bs))
RowTimes(m, i, x) == Dot(m, i, Pos(m, i), x)
MatVec(m, x) == [k \in 1..m.n |-> RowTimes(m, k-1, x)]
Gemv(m, alpha, x, beta, y) ==
    [k \in 1..m.n |-> VAdd(VTimes(alpha, RowTimes(m, k-1, x)), VTimes(beta, y[k]))]

VecSame(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : VSame(x[k], y[k])
SameMatrix(s, t) == /\ s.n = t.n
                    /\ \A i, j \in Rows(s) : /\ Stored(s, i, j) <=> Stored(t, i, j)
                                             /\ Stored(s, i, j) => RSame(Entry(s, i, j), Entry(t, i, j))
===============================================================================
