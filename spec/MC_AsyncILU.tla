----------------------------- MODULE MC_AsyncILU ------------------------------
(* Exhaustive: every matrix of a pattern whose factorization exists over the   *)
(* field, every initial guess kind, every interleaving.                        *)
EXTENDS AsyncILU, Field, TLC
CONSTANTS N, PatternSet, Sweeps, Sampled
RowSeq(pat, i) == SetToSortSeq({e \in pat : e[1] = i}, LAMBDA x, y : x[2] < y[2])
RowPtr(pat) == [k \in 1..(N+1) |-> Cardinality({e \in pat : e[1] < k - 1})]
AllEntries(pat) == FlattenSeq([k \in 1..N |-> RowSeq(pat, k-1)])
Mat(pat, v) == [n |-> N, bs |-> 1, rp |-> RowPtr(pat), ci |-> [k \in 1..Len(AllEntries(pat)) |-> AllEntries(pat)[k][2]], a |-> v]
Dense == (0..(N-1)) \X (0..(N-1))
Tri == {e \in Dense : e[1] - e[2] \in {-1, 0, 1}}
Arrow == {e \in Dense : e[1] = e[2] \/ e[1] = N-1 \/ e[2] = N-1}
Pats == IF PatternSet = "dense" THEN {Dense} ELSE IF PatternSet = "tri" THEN {Tri} ELSE {Arrow}
\* with Sampled, only the values generated from small seeds
Vals(pat) == IF Sampled = 0 THEN [1..Cardinality(pat) -> 1..(P-1)]
             ELSE {[k \in 1..Cardinality(pat) |-> 1 + (((s * 7919 + k * 10473 + s * k * 31 + k * k * s) \div 3) % (P - 1))] : s \in 1..Sampled}
MCInit == \E pat \in Pats : \E v \in Vals(pat) :
        LET a == Mat(pat, v)
            pl == PositionLists(a)
            x == Factors(a, pl)
        IN /\ Pivots(a, pl, x)
           /\ \E kind \in {"zero", "original", "sgs"} : Begin(a, pl, Guess(kind, a, pl, <<>>), Sweeps)
\* started from the exact factors, they never change
FixInit == \E pat \in Pats : \E v \in Vals(pat) :
        LET a == Mat(pat, v)
            pl == PositionLists(a)
            x == Factors(a, pl)
        IN Pivots(a, pl, x) /\ Begin(a, pl, x, Sweeps)
StaysFixed == [][f' = f]_ivars
FairSpec == MCInit /\ [][INext]_ivars /\ \A t \in Thread : WF_ivars(Claim(t) \/ Update(t))
===============================================================================
