---------------------------------- MODULE ILU ---------------------------------
(* Zero-fill incomplete LU factorization on the pattern of a matrix: what it   *)
(* is (Factors), the equation each stored position satisfies (Equation), and   *)
(* the initial guesses of the iteration that computes it.                      *)
EXTENDS Sparse

\* the stored positions needed for position p = (i, j): (i, k) and (k, j), k < min(i, j)
Pairs(m, p) == LET i == RowOf(m, p)
                   j == m.ci[p]
               IN {<<q, Where(m, m.ci[q], j)>> : q \in {q \in Pos(m, i) :
                      m.ci[q] < i /\ m.ci[q] < j /\ Stored(m, m.ci[q], j)}}

\* everything about a position that the iteration needs, computed once per pattern:
\* for each position its row, column, pairs, and the diagonal position of its column (0 on or above the diagonal)
PositionLists(m) ==
    [p \in AllPos(m) |-> LET i == RowOf(m, p) IN
        [row |-> i, col |-> m.ci[p], pairs |-> Pairs(m, p), diag |-> IF i > m.ci[p] THEN Diag(m, m.ci[p]) ELSE 0]]

\* symmetric diagonal scaling
ScaleVec(m) == [k \in 1..m.n |-> RDiagScale(m.a[Diag(m, k-1)])]
Scaled(m, s) == [m EXCEPT !.a = [p \in AllPos(m) |-> RScale(s[RowOf(m, p) + 1], m.a[p], s[m.ci[p] + 1])]]

\* the value position p takes when computed from the values val(q) of the positions it needs; a is the (scaled) matrix
SumPairs(f(_), S, zero) == MapThenFoldSet(RAdd, zero, f, LAMBDA T : CHOOSE x \in T : TRUE, S)
Equation(a, e, p, val(_)) ==
    LET s == RSub(a.a[p], SumPairs(LAMBDA pq : RMul(val(pq[1]), val(pq[2])), e.pairs, RZero(a.bs)))
    IN IF e.diag = 0 THEN s ELSE RMul(s, RInv(val(e.diag)))
Needs(e) == UNION {{pq[1], pq[2]} : pq \in e.pairs} \cup (IF e.diag = 0 THEN {} ELSE {e.diag})

\* the factors: L strictly below the diagonal (unit diagonal implied), U on and above, computed position by position
RECURSIVE Eliminate(_, _, _, _)
Eliminate(a, pl, f, p) ==
    IF p > Nnz(a) THEN f
    ELSE Eliminate(a, pl, Append(f, Equation(a, pl[p], p, LAMBDA q : f[q])), p + 1)
Factors(a, pl) == Eliminate(a, pl, <<>>, 1)          \* rows sorted by column

\* the defining property: L times U equals A at every stored position
LUAt(a, e, p, f) ==
    LET s == SumPairs(LAMBDA pq : RMul(f[pq[1]], f[pq[2]]), e.pairs, RZero(a.bs))
    IN RAdd(s, IF e.diag = 0 THEN f[p] ELSE RMul(f[p], f[e.diag]))
IsFactorization(a, pl, f) == \A p \in AllPos(a) : RSame(LUAt(a, pl[p], p, f), a.a[p])
Pivots(a, pl, f) == \A p \in AllPos(a) : pl[p].row = pl[p].col => RRegular(f[p])

\* initial guesses
Guess(kind, a, pl, old) ==
    CASE kind = "zero" -> [p \in AllPos(a) |-> RZero(a.bs)]
      [] kind = "original" -> [p \in AllPos(a) |-> a.a[p]]
      [] kind = "sgs" -> [p \in AllPos(a) |-> IF pl[p].diag = 0 THEN a.a[p] ELSE RMul(a.a[p], RInv(a.a[pl[p].diag]))]
      [] kind = "none" -> old
===============================================================================
