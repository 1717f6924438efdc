--------------------------- MODULE MC_ReorderedIlu ----------------------------
(* All small matrices and orderings over a finite field: a solver object that    *)
(* re-orders its matrix at compute, as the library does it, is the re-ordered    *)
(* incomplete factorization whatever was computed before; and where no fill is   *)
(* dropped, applying it solves the original system.                              *)
EXTENDS ReorderedIlu, Field, TLC
CONSTANT N, Scaling
VARIABLES m, r, c,            \* the matrix viewed and the ordering the ordering object holds
          rsm, lu, sv,        \* the object's re-ordered copy, its factors and scaling
          atr, atc, atm,      \* history: ordering and matrix at the latest compute
          b, z, steps
vars == <<m, r, c, rsm, lu, sv, atr, atc, atm, b, z, steps>>
Perm == {o \in [1..N -> 0..(N-1)] : \A p, q \in 1..N : o[p] = o[q] => p = q}
Ords == {<<o, o>> : o \in Perm} \cup {<<o, <<>> >> : o \in Perm} \cup {<< <<>>, o>> : o \in Perm}
Patterns == {f \in [1..N -> SUBSET (0..(N-1))] : \A i \in 1..N : (i-1) \in f[i]}
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE SumTo(f, k - 1) + f[k]
Mat(f, q) == LET ci == FlattenSeq([i \in 1..N |-> SetToSortSeq(f[i], <)]) IN
             [n |-> N, bs |-> 1, ci |-> ci, rp |-> [k \in 1..(N+1) |-> SumTo([i \in 1..N |-> Cardinality(f[i])], k-1)], a |-> [p \in DOMAIN ci |-> 1 + ((p * p * q) % (P - 1))]]
Usable(s, rr, cc) == LET t == Permuted(s, rr, cc) IN HasDiag(t) /\
    LET a == IF Scaling THEN Scaled(t, ScaleVec(t)) ELSE t pl == PositionLists(a) IN Pivots(a, pl, Factors(a, pl))
Init == /\ \E f \in Patterns, q \in 1..2 : m = Mat(f, q)
        /\ r = <<>> /\ c = <<>> /\ rsm = <<>> /\ lu = <<>> /\ sv = <<>> /\ atr = <<>> /\ atc = <<>> /\ atm = <<>> /\ z = <<>> /\ steps = 0
        /\ b = [k \in 1..N |-> (k * k + 1) % P]
\* compute: copies the matrix, has the ordering computed, re-orders the copy, factors it; the first guess is the copy itself
Compute == /\ steps < 2
           /\ \E o \in Ords :
              /\ Usable(m, o[1], o[2]) /\ r' = o[1] /\ c' = o[2]
              /\ rsm' = Permuted(m, o[1], o[2])
              /\ sv' = IF Scaling THEN ScaleVec(rsm') ELSE <<>>
              /\ LET a == IF Scaling THEN Scaled(rsm', sv') ELSE rsm' IN lu' = Factors(a, PositionLists(a))
              /\ atr' = o[1] /\ atc' = o[2] /\ atm' = m
           /\ z' = <<>> /\ steps' = steps + 1 /\ UNCHANGED <<m, b>>
Apply == /\ lu # <<>> /\ z = <<>>
         /\ LET rb == PermutedV(b, r)
                s == IF Scaling THEN VScaleBy(sv, rb) ELSE rb
                f == [rsm EXCEPT !.a = lu]
                y == Sweep("lower", "up", f, <<>>, s, Zeros(f))
                x == Sweep("upper", "down", f, InvDiag(f), y, Zeros(f))
                xs == IF Scaling THEN VScaleBy(sv, x) ELSE x
            IN z' = [k \in 1..N |-> IF c = <<>> THEN xs[k] ELSE xs[(CHOOSE q \in 1..N : c[q] = k - 1)]]
         /\ UNCHANGED <<m, r, c, rsm, lu, sv, atr, atc, atm, b, steps>>
Values == /\ steps = 1 /\ z # <<>> /\ m' = [m EXCEPT !.a = [p \in DOMAIN m.a |-> 1 + ((m.a[p] + p) % (P - 1))]] /\ z' = <<>> /\ steps' = steps
          /\ m' # m /\ m = atm /\ UNCHANGED <<r, c, rsm, lu, sv, atr, atc, atm, b>>
Next == Compute \/ Apply \/ Values
Spec == Init /\ [][Next]_vars
Right == z # <<>> => z = ApplyOrdered(atm, PreparedOrdered(atm, atr, atc, Scaling), atr, atc, Scaling, b)
NoFillDropped(t) == \A i, j, k \in Rows(t) : Stored(t, i, k) /\ Stored(t, k, j) /\ k < i /\ k < j => Stored(t, i, j)
\* (the scaling is its own inverse only where square roots exist, so it must divide out)
ExactSolves == z # <<>> /\ NoFillDropped(rsm) => MatVec(atm, z) = b
===============================================================================
