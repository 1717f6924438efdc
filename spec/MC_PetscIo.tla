------------------------------- MODULE MC_PetscIo ------------------------------
(* All small files: a matrix inserted row after row, from the list of entries    *)
(* or from the converted matrix block by block, is the file's.  Fault: blocks    *)
(* laid out the other way than PETSc is told.                                    *)
EXTENDS PetscIo
CONSTANTS N, BS, MaxEntries, ByRows      \* ByRows: blocks are laid out by rows although the matrix expects columns
VARIABLES file, faster, mat, row
vars == <<file, faster, mat, row>>
Pt == (0..(N-1)) \X (0..(N-1))
Val(p) == p[1] * N + p[2] + 1
EntriesOf(S) == LET s == SetToSortSeq(S, LAMBDA a, b : Val(a) < Val(b)) IN [k \in DOMAIN s |-> <<s[k][1], s[k][2], Val(s[k])>>]
Init == /\ \E S \in UNION {kSubset(k, Pt) : k \in 1..MaxEntries} : file = EntriesOf(S)
        /\ faster \in BOOLEAN /\ mat = Empty /\ row = 0
Put(m, ps) == ps @@ m
Row(i) == LET es == SelectSeq(file, LAMBDA e : e[1] = i) IN Put(mat, [p \in Places(es) |-> ValueAt(es)[p]])
\* one block-row of the converted matrix
Conv(i, j) == BlockAt(ValueAt(file), BS, ByRows, i, j, 0)
BlockRow(i) == LET bc == BlockCols(file, BS, i) IN
    Put(mat, [p \in {<<i * BS + r, j * BS + c>> : r \in 0..(BS-1), c \in 0..(BS-1), j \in bc} |->
              LET j == p[2] \div BS IN Conv(i, j)[(p[2] % BS) * BS + (p[1] % BS) + 1]])
Rows == IF faster THEN N \div BS ELSE N
InsertRow == row < Rows /\ mat' = (IF faster THEN BlockRow(row) ELSE Row(row)) /\ row' = row + 1 /\ UNCHANGED <<file, faster>>
Next == InsertRow
Complete == row = Rows => mat = MatrixOf(file, IF faster THEN BS ELSE 1, 0)
SoFar == \A p \in DOMAIN mat : mat[p] = MatrixOf(file, IF faster THEN BS ELSE 1, 0)[p]
================================================================================
