------------------------------ MODULE MC_Columns -------------------------------
(* Counting, accumulating and filling as the library does it, entry by entry in *)
(* storage order, for all patterns and orders of the columns within rows.       *)
EXTENDS Columns, TLC
CONSTANTS N
VARIABLES m, cnt, fill, ri, loc, pos, phase
vars == <<m, cnt, fill, ri, loc, pos, phase>>
Arr(S) == {s \in [1..Cardinality(S) -> S] : \A p, q \in DOMAIN s : s[p] = s[q] => p = q}
RowChoices == UNION {Arr(S) : S \in SUBSET (0..(N-1))}
RECURSIVE SumTo(_, _)
SumTo(c, k) == IF k = 0 THEN 0 ELSE SumTo(c, k - 1) + c[k]
Mat(rows) == [n |-> N, ci |-> FlattenSeq(rows), rp |-> [k \in 1..(N + 1) |-> SumTo([i \in 1..N |-> Len(rows[i])], k - 1)],
              a |-> [p \in 1..Len(FlattenSeq(rows)) |-> 10 + p]]
Init == /\ \E rows \in [1..N -> RowChoices] : m = Mat(rows)
        /\ cnt = [k \in 1..(N + 1) |-> 0] /\ fill = [k \in 1..N |-> 0] /\ ri = [p \in DOMAIN m.ci |-> -1] /\ loc = ri /\ pos = 1 /\ phase = "count"
RowAt(p) == CHOOSE i \in NRows(m) : p \in Places(m, i)
Count == /\ phase = "count" /\ pos <= Len(m.ci) /\ cnt' = [cnt EXCEPT ![m.ci[pos] + 2] = @ + 1] /\ pos' = pos + 1 /\ UNCHANGED <<m, fill, ri, loc, phase>>
Scan == /\ phase = "count" /\ pos > Len(m.ci) /\ cnt' = [k \in DOMAIN cnt |-> SumTo(cnt, k)] /\ pos' = 1 /\ phase' = "fill" /\ UNCHANGED <<m, fill, ri, loc>>
Fill == /\ phase = "fill" /\ pos <= Len(m.ci)
        /\ LET j == m.ci[pos] q == cnt[j+1] + fill[j+1] + 1 IN
           /\ ri' = [ri EXCEPT ![q] = RowAt(pos)] /\ loc' = [loc EXCEPT ![q] = pos - 1] /\ fill' = [fill EXCEPT ![j+1] = @ + 1]
        /\ pos' = pos + 1 /\ UNCHANGED <<m, cnt, phase>>
End == phase = "fill" /\ pos > Len(m.ci) /\ phase' = "done" /\ UNCHANGED <<m, cnt, fill, ri, loc, pos>>
Next == Count \/ Scan \/ Fill \/ End
Lists == phase = "done" => ColumnPointers(m, cnt, 0) /\ ListsOf(m, cnt, ri, loc)
\* with the blocks fetched through the locations, the lists are the compressed columns; rows come out in order
Compressed == phase = "done" =>
    /\ RowsOfColumns(m, cnt, 0, ri) /\ RowsRise(m, cnt, 0, ri) /\ BlocksOfColumns(m, cnt, 0, ri, [p \in DOMAIN loc |-> m.a[loc[p] + 1]])
    /\ Diagonals(m, cnt, 0, ri, [j \in 1..N |-> LET S == {p \in Col(cnt, 0, j-1) : ri[p] = j - 1} IN IF S = {} THEN -1 ELSE Max(S) - 1])
================================================================================
