----------------------------- MODULE ReorderedIlu -----------------------------
(* Incomplete LU preconditioning of a re-ordered matrix: row k of the re-ordered *)
(* matrix is row r[k+1], its column k is column c[k+1] of the matrix, and the    *)
(* preconditioner is used in the numbering of the matrix itself.                 *)
EXTENDS Solver
To(o, k) == IF o = <<>> THEN k ELSE o[k+1]
\* the re-ordered matrix, rows sorted
Permuted(m, r, c) ==
    LET cols(i) == SetToSortSeq({j \in Rows(m) : Stored(m, To(r, i), To(c, j))}, <)
        of == [i \in 1..m.n |-> cols(i-1)]
        len(i) == Len(of[i])
        RECURSIVE Sum(_)
        Sum(k) == IF k = 0 THEN 0 ELSE Sum(k-1) + len(k)
        ci == FlattenSeq(of)
        rows == FlattenSeq([i \in 1..m.n |-> [q \in 1..len(i) |-> i - 1]])
    IN [n |-> m.n, bs |-> m.bs, rp |-> [k \in 1..(m.n+1) |-> Sum(k-1)], ci |-> ci,
        a |-> [p \in DOMAIN ci |-> Entry(m, To(r, rows[p]), To(c, ci[p]))]]
IluOptions(scaling) == [method |-> "seqilu0", scaling |-> scaling, napply |-> 1, ainit |-> "zero"]
PermutedV(x, o) == [k \in DOMAIN x |-> x[To(o, k-1) + 1]]
\* unknown k of the re-ordered system is unknown c[k+1] of the original one
Restored(z, c) == [k \in DOMAIN z |-> z[CHOOSE q \in DOMAIN z : To(c, q-1) = k-1]]
PreparedOrdered(m, r, c, scaling) == Prep(IluOptions(scaling), Permuted(m, r, c))
ApplyOrdered(m, prep, r, c, scaling, b) == Restored(ApplyOf(IluOptions(scaling), prep, m, PermutedV(b, r), Zeros(m)), c)
===============================================================================
