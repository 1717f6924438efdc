-------------------------------- MODULE Columns --------------------------------
(* The column-oriented views of a sparse-row matrix m (Sparse): the compressed  *)
(* columns, and the lists of rows and storage places of each column.            *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
NRows(m) == 0..(m.n - 1)
Places(m, i) == (m.rp[i+1] + 1)..m.rp[i+2]
RowsWith(m, j) == {i \in NRows(m) : \E p \in Places(m, i) : m.ci[p] = j}
PlaceOf(m, i, j) == CHOOSE p \in Places(m, i) : m.ci[p] = j
ColumnPointers(m, cp, base) == /\ Len(cp) = m.n + 1 /\ cp[1] = base
                               /\ \A j \in NRows(m) : cp[j+2] - cp[j+1] = Cardinality(RowsWith(m, j))
Col(cp, base, j) == (cp[j+1] - base + 1)..(cp[j+2] - base)
\* compressed columns: rows ri, blocks a, diagonal positions di
RowsOfColumns(m, cp, base, ri) == /\ Len(ri) = m.rp[m.n + 1]
                                  /\ \A j \in NRows(m) : {ri[p] - base : p \in Col(cp, base, j)} = RowsWith(m, j)
RowsRise(m, cp, base, ri) == \A j \in NRows(m) : \A p \in Col(cp, base, j) : (p + 1) \in Col(cp, base, j) => ri[p] < ri[p+1]
BlocksOfColumns(m, cp, base, ri, a) == Len(a) = Len(ri) /\ \A j \in NRows(m) : \A p \in Col(cp, base, j) : a[p] = m.a[PlaceOf(m, ri[p] - base, j)]
\* where there is no diagonal entry: one less than the first position
Diagonals(m, cp, base, ri, di) == /\ Len(di) = m.n
    /\ \A j \in NRows(m) : IF j \in RowsWith(m, j) THEN (di[j+1] - base + 1) \in Col(cp, base, j) /\ ri[di[j+1] - base + 1] = j + base
                                                   ELSE di[j+1] = base - 1
\* lists of rows and of places (counted from 0) in the row storage
ListsOf(m, cp, ri, loc) == /\ Len(ri) = m.rp[m.n + 1] /\ Len(loc) = Len(ri)
    /\ \A j \in NRows(m) : {<<ri[p], loc[p]>> : p \in Col(cp, 0, j)} = {<<i, PlaceOf(m, i, j) - 1>> : i \in RowsWith(m, j)}
================================================================================
