-------------------------------- MODULE MC_Coo ---------------------------------
(* Reading and converting as the library does it: the entries are sorted by row *)
(* (in any order within one), rows are told apart by runs, each is sorted, then *)
(* block-columns are collected row after row, sorted, and the values copied.    *)
EXTENDS Coo, TLC
CONSTANTS N, BS, MaxRow, Sorted \* points, block size, most entries of a row; whether rows are presented in order only
VARIABLES file, rest, list, rp, row, bci, brp, phase
vars == <<file, rest, list, rp, row, bci, brp, phase>>
NB == N \div BS
Pt == (0..(N-1)) \X (0..(N-1))
Val(p) == p[1] * N + p[2] + 1
RowSets == {S \in SUBSET (0..(N-1)) : S # {} /\ Cardinality(S) <= MaxRow}
Ents(f) == {<<i, j, Val(<<i, j>>)>> : i \in 0..(N-1), j \in 0..(N-1)} \cap UNION {{<<i, j, Val(<<i, j>>)>> : j \in f[i]} : i \in 0..(N-1)}
Init == \E f \in [0..(N-1) -> RowSets] :
        /\ file = SetToSortSeq(Ents(f), LAMBDA a, b : a[3] < b[3]) /\ rest = Ents(f)
        /\ list = <<>> /\ rp = <<>> /\ row = 0 /\ bci = <<>> /\ brp = <<>> /\ phase = "rows"
LeastRow == Min({e[1] : e \in rest})
PickEntry == /\ phase = "rows" /\ rest # {}
             /\ \E e \in rest : /\ e[1] = LeastRow /\ (Sorted => \A g \in rest : e[3] <= g[3])
                                /\ list' = Append(list, e) /\ rest' = rest \ {e}
             /\ UNCHANGED <<file, rp, row, bci, brp, phase>>
Point == /\ phase = "rows" /\ rest = {}
         /\ rp' = Runs(list, 1, <<0>>) /\ phase' = "sort" /\ UNCHANGED <<file, rest, list, row, bci, brp>>
SortEach == /\ phase = "sort" /\ list' = SortRows(list, rp, 1) /\ phase' = "collect"
            /\ brp' = [k \in 1..(NB + 1) |-> 0] /\ UNCHANGED <<file, rest, rp, row, bci>>
\* the block-columns of one point row, appended when new to the block-row
RECURSIVE Collect(_, _, _, _)
Collect(c, start, k, last) == IF k > last THEN c
    ELSE LET b == list[k][2] \div BS IN Collect(IF \E q \in (start + 1)..Len(c) : c[q] = b THEN c ELSE Append(c, b), start, k + 1, last)
CollectRow == /\ phase = "collect" /\ row < N
              /\ LET ib == row \div BS start == IF row % BS = 0 THEN Len(bci) ELSE brp[ib + 1] IN
                 /\ brp' = [brp EXCEPT ![ib + 1] = start]
                 /\ bci' = Collect(bci, start, rp[row + 1] + 1, rp[row + 2])
              /\ row' = row + 1 /\ UNCHANGED <<file, rest, list, rp, phase>>
SortBlocks == /\ phase = "collect" /\ row = N
              /\ LET b == [brp EXCEPT ![NB + 1] = Len(bci)] IN
                 /\ brp' = b
                 /\ bci' = FlattenSeq([i \in 1..NB |-> SortSeq(SubSeq(bci, b[i] + 1, b[i+1]), <)])
              /\ phase' = "done" /\ UNCHANGED <<file, rest, list, rp, row>>
Next == PickEntry \/ Point \/ SortEach \/ CollectRow \/ SortBlocks
\* copied values: each entry to its place in the block found for it
Copied == [p \in 1..Len(bci) |-> LET i == CHOOSE i \in 0..(NB-1) : p > brp[i+1] /\ p <= brp[i+2] IN
    [k \in 1..(BS*BS) |-> LET hit == {q \in 1..Len(list) : list[q][1] \div BS = i /\ list[q][2] \div BS = bci[p] /\ Off(BS, TRUE, list[q][1] % BS, list[q][2] % BS) = k - 1}
                          IN IF hit = {} THEN 0 ELSE list[Max(hit)][3]]]
Read == phase \in {"collect", "done"} =>
    /\ PointersOf(file, 1, N, rp) /\ ColumnsOf(file, 1, N, rp, [k \in DOMAIN list |-> list[k][2]]) /\ ColumnsRise(N, rp, [k \in DOMAIN list |-> list[k][2]])
    /\ ValuesOf(file, 1, TRUE, N, rp, [k \in DOMAIN list |-> list[k][2]], [k \in DOMAIN list |-> <<list[k][3]>>], 0)
Converted == phase = "done" =>
    /\ PointersOf(file, BS, NB, brp) /\ ColumnsOf(file, BS, NB, brp, bci) /\ ColumnsRise(NB, brp, bci)
    /\ ValuesOf(file, BS, TRUE, NB, brp, bci, Copied, 0)
================================================================================
