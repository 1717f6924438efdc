------------------------------- MODULE Assembly --------------------------------
(* Assembling a matrix: what each call does to its stored entries, addressed by *)
(* (block) row and column.  A matrix is one of module Sparse, an entry nobody   *)
(* has set yet is Undef.  Block matrices are addressed by block, point matrices *)
(* by dense sub-blocks whose entries are all stored.                            *)
EXTENDS Sparse
CONSTANT Undef
Blank(n, bs, rp, ci) == [n |-> n, bs |-> bs, rp |-> rp, ci |-> ci, a |-> [p \in 1..Len(ci) |-> Undef]]
RowsOf(m) == [p \in AllPos(m) |-> RowOf(m, p)]
\* f(old, i, j) at the stored entries for which C(i, j)
Change(m, C(_, _), f(_, _, _)) ==
    LET ro == RowsOf(m) IN [m EXCEPT !.a = [p \in AllPos(m) |-> IF C(ro[p], m.ci[p]) THEN f(m.a[p], ro[p], m.ci[p]) ELSE m.a[p]]]
Plus(old, v) == IF old = Undef THEN Undef ELSE RAdd(old, v)
Zeroed(m) == Change(m, LAMBDA i, j : TRUE, LAMBDA v, i, j : RZero(m.bs))
DiagZeroed(m) == Change(m, LAMBDA i, j : i = j, LAMBDA v, i, j : RZero(m.bs))
Scaled2(m, Times(_)) == Change(m, LAMBDA i, j : TRUE, LAMBDA v, i, j : IF v = Undef THEN Undef ELSE Times(v))
\* a dense h x w array of entries b (row by row) placed at (i0, j0)
Inside(i0, j0, h, w, i, j) == i >= i0 /\ i < i0 + h /\ j >= j0 /\ j < j0 + w
At2(b, i0, j0, w, i, j) == b[(i - i0) * w + (j - j0) + 1]
Submitted(m, i0, j0, h, w, b) == Change(m, LAMBDA i, j : Inside(i0, j0, h, w, i, j), LAMBDA v, i, j : At2(b, i0, j0, w, i, j))
Updated(m, i0, j0, h, w, b) == Change(m, LAMBDA i, j : Inside(i0, j0, h, w, i, j), LAMBDA v, i, j : Plus(v, At2(b, i0, j0, w, i, j)))
RECURSIVE AllUpdated(_, _)
AllUpdated(m, us) == IF us = <<>> THEN m ELSE LET u == us[1] IN AllUpdated(Updated(m, u.i, u.j, u.h, u.w, u.b), Tail(us))
\* the sub-block can be addressed: every entry stored
Covered(m, i0, j0, h, w) == \A i \in i0..(i0 + h - 1), j \in j0..(j0 + w - 1) : i \in Rows(m) /\ j \in Rows(m) /\ Stored(m, i, j)
\* equality: number of rows, row pointers, columns, values, diagonal positions; what follows a difference in size is not constrained
StoredDiag(m) == [k \in 1..m.n |-> IF Stored(m, k-1, k-1) THEN Diag(m, k-1) ELSE 0]
================================================================================
