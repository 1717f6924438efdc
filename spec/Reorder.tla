-------------------------------- MODULE Reorder --------------------------------
(* Orderings and scalings of a matrix (Sparse) and of vectors.  An ordering is  *)
(* a sequence o of the numbers from 0: place k of the result is place o[k+1] of *)
(* what was there; an empty sequence leaves everything in place.  A scaling is  *)
(* a sequence of numbers, one for each (block) row or column, or empty.         *)
EXTENDS Sparse
CONSTANTS RTimes(_, _),      \* number times matrix entry
          NInv(_)            \* 1/number
To(o, k) == IF o = <<>> THEN k ELSE o[k+1]
InvOrder(o) == [k \in DOMAIN o |-> (CHOOSE q \in DOMAIN o : o[q] = k - 1) - 1]
Mode(o, fwd) == IF fwd THEN o ELSE InvOrder(o)
\* t is s with rows and columns re-ordered (columns stored in any order)
Ordered(s, t, r, c) ==
    /\ WF(t) /\ t.n = s.n /\ Nnz(t) = Nnz(s)
    /\ \A i \in Rows(t) : t.rp[i+2] - t.rp[i+1] = s.rp[To(r, i) + 2] - s.rp[To(r, i) + 1]
    /\ \A i \in Rows(t) : \A p \in Pos(t, i) : Stored(s, To(r, i), To(c, t.ci[p])) /\ t.a[p] = Entry(s, To(r, i), To(c, t.ci[p]))
Factor(f, k) == IF f = <<>> THEN <<>> ELSE <<f[k+1]>>
Times1(f, fwd, a) == IF f = <<>> THEN a ELSE RTimes(IF fwd THEN f[1] ELSE NInv(f[1]), a)
\* values of s scaled, in place
ScaledVals(s, r, c, fwd) == [p \in AllPos(s) |-> Times1(Factor(c, s.ci[p]), fwd, Times1(Factor(r, RowOf(s, p)), fwd, s.a[p]))]
Scaled(s, t, r, c, fwd) == /\ t.n = s.n /\ t.rp = s.rp /\ t.ci = s.ci /\ Len(t.a) = Nnz(s)
                           /\ LET v == ScaledVals(s, r, c, fwd) IN \A p \in AllPos(s) : RSame(t.a[p], v[p])
OrderedV(x, o, fwd) == IF o = <<>> THEN x ELSE [k \in DOMAIN x |-> x[Mode(o, fwd)[k] + 1]]
Times1V(f, fwd, x) == IF f = <<>> THEN x ELSE VTimes(IF fwd THEN f[1] ELSE NInv(f[1]), x)
ScaledV(x, f, fwd) == [k \in DOMAIN x |-> Times1V(Factor(f, k - 1), fwd, x[k])]
DiagonalsFound(m, di) == Len(di) = m.n /\ \A i \in Rows(m) : IF Stored(m, i, i) THEN di[i+1] + 1 = Diag(m, i) ELSE di[i+1] = -1
================================================================================
