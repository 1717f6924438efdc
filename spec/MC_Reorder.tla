------------------------------- MODULE MC_Reorder ------------------------------
(* All small matrices, orderings, scalings and vectors over a finite field:     *)
(* the library's way of moving rows and renaming columns gives the re-ordered   *)
(* matrix, the inverse undoes it, and the transformed system has the            *)
(* transformed solution.                                                        *)
EXTENDS Reorder, Field, TLC
CONSTANT N
VARIABLES m0, r, c, rs, cs, x0, m, x, b, done      \* original, what is set, current, the calls so far
vars == <<m0, r, c, rs, cs, x0, m, x, b, done>>
Perm == {o \in [1..N -> 0..(N-1)] : \A p, q \in 1..N : o[p] = o[q] => p = q}
Maybe(S) == S \cup {<<>>}
Factors == [1..N -> 1..(P-1)]
Patterns == [1..N -> SUBSET (0..(N-1))]
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE SumTo(f, k - 1) + f[k]
Mat(f, a) == LET ci == FlattenSeq([i \in 1..N |-> SetToSortSeq(f[i], <)]) IN
             [n |-> N, bs |-> 1, ci |-> ci, rp |-> [k \in 1..(N+1) |-> SumTo([i \in 1..N |-> Cardinality(f[i])], k-1)], a |-> [p \in DOMAIN ci |-> a[p]]]
Vals == {[p \in 1..(N*N) |-> 1 + ((p * q) % (P - 1))] : q \in 1..2}
Vecs == {[k \in 1..N |-> (k * q) % P] : q \in 1..2}
Init == /\ \E f \in Patterns, a \in Vals : m0 = Mat(f, a)
        /\ r \in Maybe(Perm) /\ c \in Maybe(Perm) /\ rs \in Maybe({[k \in 1..N |-> 1 + (k % (P-1))]}) /\ cs \in Maybe({[k \in 1..N |-> 1 + ((k * k) % (P-1))]})
        /\ x0 \in Vecs /\ m = m0 /\ x = x0 /\ b = MatVec(m0, x0) /\ done = <<>>
\* as the library does it: whole rows moved, columns renamed, each row sorted with its values
MoveRows(s, o) == LET len == [i \in 1..N |-> s.rp[To(o, i-1) + 2] - s.rp[To(o, i-1) + 1]]
                      pick == FlattenSeq([i \in 1..N |-> [q \in 1..len[i] |-> s.rp[To(o, i-1) + 1] + q]]) IN
                  [s EXCEPT !.rp = [k \in 1..(N+1) |-> SumTo(len, k - 1)], !.ci = [k \in DOMAIN pick |-> s.ci[pick[k]]], !.a = [k \in DOMAIN pick |-> s.a[pick[k]]]]
RowPairs(s, name, i) == SortSeq([q \in 1..(s.rp[i+1] - s.rp[i]) |-> <<To(name, s.ci[s.rp[i] + q]), s.a[s.rp[i] + q]>>], LAMBDA u, v : u[1] < v[1])
Rename(s, name) == LET ps == FlattenSeq([i \in 1..N |-> RowPairs(s, name, i)]) IN [s EXCEPT !.ci = [k \in DOMAIN ps |-> ps[k][1]], !.a = [k \in DOMAIN ps |-> ps[k][2]]]
\* forward: columns renamed by the inverse; inverse: rows sent to r[i], columns renamed by the ordering itself
ImplOrder(s, fwd) == LET s1 == IF r = <<>> THEN s ELSE MoveRows(s, IF fwd THEN r ELSE InvOrder(r)) IN
                     IF c = <<>> THEN s1 ELSE Rename(s1, IF fwd THEN InvOrder(c) ELSE c)
ImplScale(s, fwd) == [s EXCEPT !.a = ScaledVals(s, rs, cs, fwd)]
Forward == /\ done = <<>> /\ done' = <<"scale">> /\ m' = ImplScale(m, TRUE) /\ x' = ScaledV(x, cs, FALSE) /\ b' = ScaledV(b, rs, TRUE) /\ UNCHANGED <<m0, r, c, rs, cs, x0>>
Order == /\ done = <<"scale">> /\ done' = <<"scale", "order">> /\ m' = ImplOrder(m, TRUE) /\ x' = OrderedV(x, c, TRUE) /\ b' = OrderedV(b, r, TRUE) /\ UNCHANGED <<m0, r, c, rs, cs, x0>>
Unorder == /\ Len(done) = 2 /\ done' = Append(done, "unorder") /\ m' = ImplOrder(m, FALSE) /\ x' = OrderedV(x, c, FALSE) /\ b' = OrderedV(b, r, FALSE) /\ UNCHANGED <<m0, r, c, rs, cs, x0>>
Unscale == /\ Len(done) = 3 /\ done' = Append(done, "unscale") /\ m' = ImplScale(m, FALSE) /\ x' = ScaledV(x, cs, TRUE) /\ b' = ScaledV(b, rs, FALSE) /\ UNCHANGED <<m0, r, c, rs, cs, x0>>
Next == Forward \/ Order \/ Unorder \/ Unscale
IsSolution == MatVec(m, x) = b
Restored == Len(done) = 4 => SameMatrix(m0, m) /\ x = x0 /\ b = MatVec(m0, x0)
RowsSorted == Sorted(m)
Defined == [][/\ (done' = <<"scale", "order">> => Ordered(m, m', r, c))
              /\ (Len(done') = 3 => Ordered(m, m', InvOrder(r), InvOrder(c)))
              /\ (done' = <<"scale">> => Scaled(m, m', rs, cs, TRUE))]_vars
Spec == Init /\ [][Next]_vars
================================================================================
