------------------------------ MODULE StorageData ------------------------------
(* The matrices used in storage histories, the same in the model and in the     *)
(* replay.                                                                      *)
EXTENDS Integers, Sequences
Tri3 == [n |-> 3, rp |-> <<0, 2, 5, 7>>, ci |-> <<0, 1, 0, 1, 2, 1, 2>>, di |-> <<0, 3, 6>>]
Full2 == [n |-> 2, rp |-> <<0, 2, 4>>, ci |-> <<0, 1, 0, 1>>, di |-> <<0, 3>>]
One == [n |-> 1, rp |-> <<0, 1>>, ci |-> <<0>>, di |-> <<0>>]
Patterns == <<Tri3, Full2, One>>
Val(q, i) == ((i * 5 + q) % 9) + 1
Pattern(q, bs) == LET p == Patterns[q] IN [n |-> p.n, rp |-> p.rp, ci |-> p.ci, di |-> p.di, bs |-> bs,
                                          v |-> [i \in 1..(p.rp[p.n + 1] * bs * bs) |-> Val(q, i)]]
UserVals(n) == [i \in 1..n |-> 10 + i]
================================================================================
