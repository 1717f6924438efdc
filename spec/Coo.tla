---------------------------------- MODULE Coo ----------------------------------
(* Coordinate matrices: which files are read, and the sparse-row matrix that a  *)
(* list of entries <<row, column, value>> (counted from 0) is converted to.     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
\* the words of the header line
Accepted(h) == /\ Len(h) = 5 /\ h[1] = "%%MatrixMarket" /\ h[2] = "matrix" /\ h[3] = "coordinate"
               /\ h[4] \in {"real", "integer"} /\ h[5] = "general"
Places(es) == {<<e[1], e[2]>> : e \in ToSet(es)}
NoTwice(es) == Cardinality(Places(es)) = Len(es)
ValueAt(es) == [p \in Places(es) |-> (CHOOSE e \in ToSet(es) : e[1] = p[1] /\ e[2] = p[2])[3]]
BlockCols(es, bs, i) == {e[2] \div bs : e \in {f \in ToSet(es) : f[1] \div bs = i}}
\* place of entry (r, c) in a block
Off(bs, rm, r, c) == IF rm THEN r * bs + c ELSE c * bs + r
BlockAt(V, bs, rm, i, j, zero) ==
    [k \in 1..(bs * bs) |->
        LET q == k - 1 r == IF rm THEN q \div bs ELSE q % bs c == IF rm THEN q % bs ELSE q \div bs
            p == <<i * bs + r, j * bs + c>> IN IF p \in DOMAIN V THEN V[p] ELSE zero]
Strictly(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k+1]
Slice(s, rp, i) == SubSeq(s, rp[i+1] + 1, rp[i+2])
PointersOf(es, bs, nb, rp) == /\ Len(rp) = nb + 1 /\ rp[1] = 0
                              /\ \A i \in 0..(nb - 1) : rp[i+2] - rp[i+1] = Cardinality(BlockCols(es, bs, i))
ColumnsOf(es, bs, nb, rp, ci) == /\ Len(ci) = rp[nb + 1]
                                 /\ \A i \in 0..(nb - 1) : ToSet(Slice(ci, rp, i)) = BlockCols(es, bs, i)
ColumnsRise(nb, rp, ci) == \A i \in 0..(nb - 1) : Strictly(Slice(ci, rp, i))
ValuesOf(es, bs, rm, nb, rp, ci, a, zero) ==
    LET V == ValueAt(es) IN
    Len(a) = Len(ci) /\ \A i \in 0..(nb - 1) : \A p \in (rp[i+1] + 1)..rp[i+2] : a[p] = BlockAt(V, bs, rm, i, ci[p], zero)
DiagonalOf(es, bs, nb, rp, ci, di) == Len(di) = nb /\ \A i \in 0..(nb - 1) : i \in BlockCols(es, bs, i) => di[i+1] \in rp[i+1]..(rp[i+2] - 1) /\ ci[di[i+1] + 1] = i

\* ---- how the library does it ----
\* row pointers from runs of equal rows in the list sorted by row
RECURSIVE Runs(_, _, _)
Runs(L, k, rp) == IF k > Len(L) THEN Append(rp, Len(L)) ELSE Runs(L, k + 1, IF k > 1 /\ L[k][1] # L[k-1][1] THEN Append(rp, k - 1) ELSE rp)
SortRow(s) == SortSeq(s, LAMBDA a, b : a[2] < b[2])
RECURSIVE SortRows(_, _, _)
SortRows(L, rp, i) == IF i = Len(rp) THEN <<>> ELSE SortRow(SubSeq(L, rp[i] + 1, rp[i+1])) \o SortRows(L, rp, i + 1)
================================================================================
