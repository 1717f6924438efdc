--------------------------------- MODULE Scan ----------------------------------
(* Running sums, sorting of indices with their blocks, searching.               *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
RECURSIVE SumTo(_, _)
SumTo(c, k) == IF k = 0 THEN 0 ELSE SumTo(c, k - 1) + c[k]
Exclusive(c) == [k \in DOMAIN c |-> SumTo(c, k - 1)]
Inclusive(c) == [k \in DOMAIN c |-> SumTo(c, k)]
Times(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A k \in DOMAIN s : Times(s, s[k]) = Times(t, s[k])
Increasing(s) == \A k \in 1..(Len(s) - 1) : s[k] <= s[k+1]
Pairs(ix, v) == [k \in DOMAIN ix |-> <<ix[k], v[k]>>]
\* (ix, v) sorted gives (jx, w)
SortedInto(ix, v, jx, w) == Len(jx) = Len(ix) /\ Len(w) = Len(ix) /\ Increasing(jx) /\ SameBag(Pairs(ix, v), Pairs(jx, w))
\* the first position from start (included) to end (not included), counted from 0; otherwise what was there before
Found(a, start, end, x, before) ==
    LET S == {p \in start..(end - 1) : a[p+1] = x} IN IF S = {} THEN before ELSE Min(S)

\* ---- the parallel prefix sum: each thread sums its share, then the shares are combined pairwise ----
\* T threads, n entries; thread t (from 0) has the entries from t*w up to (t+1)*w
Width(n, T) == ((n - 1) \div T) + 1
RECURSIVE Levels(_)
Levels(T) == IF T <= 1 THEN 0 ELSE 1 + Levels((T + 1) \div 2)
Least2(a, b) == IF a < b THEN a ELSE b
Start(n, T, t) == t * Width(n, T)
End(n, T, t) == Least2(n, (t + 1) * Width(n, T))
\* combining step at a level (from 0), task q: entries from..to-1 get the value at from-1 added
Fac(lvl) == 2 ^ (lvl + 1)
Tasks(T, lvl) == ((T - 1) \div Fac(lvl)) + 1
LStart(n, T, lvl, q) == LET w == Fac(lvl) * Width(n, T) IN Least2(n, (w \div 2) + q * w + 1)
LEnd(n, T, lvl, q) == LET w == Fac(lvl) * Width(n, T) IN Least2(n, (q + 1) * w + 1)
\* selection sort as the library does it
RECURSIVE Selection(_, _, _)
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
Selection(ix, v, m) ==
    IF m <= 1 THEN <<ix, v>>
    ELSE LET big == CHOOSE p \in 1..m : /\ \A q \in 1..m : ix[q] <= ix[p]
                                        /\ \A q \in 1..(p - 1) : ix[q] < ix[p]
         IN Selection(Swap(ix, m, big), Swap(v, m, big), m - 1)
================================================================================
