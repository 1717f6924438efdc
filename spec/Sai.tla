---------------------------------- MODULE Sai ---------------------------------
(* Triangular views of a matrix and left sparse approximate inverses.           *)
(* A view v is a record [n, bs, ci, a, rb, re]: row i holds the positions after *)
(* rb[i+1] up to re[i+1], so that parts of the stored matrix can be left out.   *)
EXTENDS Sparse
CONSTANT RTransp(_)
Whole(m) == [n |-> m.n, bs |-> m.bs, ci |-> m.ci, a |-> m.a, rb |-> [k \in 1..m.n |-> m.rp[k]], re |-> [k \in 1..m.n |-> m.rp[k+1]]]
Lower(m) == [Whole(m) EXCEPT !.re = [k \in 1..m.n |-> Diag(m, k-1)]]
Upper(m) == [Whole(m) EXCEPT !.rb = [k \in 1..m.n |-> Diag(m, k-1) - 1]]
View(m, w) == CASE w = "whole" -> Whole(m) [] w = "lower" -> Lower(m) [] w = "upper" -> Upper(m)
Span(v, i) == (v.rb[i+1] + 1)..v.re[i+1]
Count(v) == LET RECURSIVE C(_) C(k) == IF k = 0 THEN 0 ELSE C(k-1) + Cardinality(Span(v, k-1)) IN C(v.n)
VEntry(v, i, j) == LET S == {p \in Span(v, i) : v.ci[p] = j} IN IF S = {} THEN RZero(v.bs) ELSE v.a[CHOOSE p \in S : TRUE]
\* what the triangular views are for
IsTriangle(m, v, w) == \A i, j \in Rows(m) :
    (\E p \in Span(v, i) : v.ci[p] = j) <=> (Stored(m, i, j) /\ (IF w = "lower" THEN j <= i ELSE j >= i))

\* Row i of the inverse has the pattern of row i.  Its unknowns are its entries k; its equations, one for each column j, are
\*   (row i of the inverse) * (column j of the matrix) = (i, j) entry of the identity,
\* for the columns j of every row k it takes part in, or, for the incomplete one, only for the columns of row i
Cols(v, i) == {v.ci[p] : p \in Span(v, i)}
Equations(v, i, inc) == IF inc THEN Cols(v, i) ELSE UNION {Cols(v, v.ci[p]) : p \in Span(v, i)}
Delta(v, i, j) == IF i = j THEN ROne(v.bs) ELSE RZero(v.bs)
RowTimesCol(v, s, i, j) == SumR(LAMBDA p : RMul(s[p], VEntry(v, v.ci[p], j)), Span(v, i), RZero(v.bs))
Solves(v, s, i) == \A j \in Cols(v, i) : RSame(RowTimesCol(v, s, i, j), Delta(v, i, j))
\* least squares: the residual is orthogonal to every row taking part
Normal(v, s, i) == LET E == Equations(v, i, FALSE) mt == [j \in E |-> RowTimesCol(v, s, i, j)] IN
    \A p \in Span(v, i) : LET k == v.ci[p] IN
        RSame(SumR(LAMBDA j : RMul(mt[j], RTransp(VEntry(v, k, j))), E, RZero(v.bs)), RTransp(VEntry(v, k, i)))
ApproxInverse(v, s, inc) == \A i \in Rows(v) : IF inc THEN Solves(v, s, i) ELSE Normal(v, s, i)

\* The index lists: sp = [bpos, browind, bcolptr, sairowptr, nvars, neqns, central], numbers from 0 as in the code.
\* Unknown k of row i is column k of the local system; it has the entries Named
Col0(sp, i, k) == sp.sairowptr[i+1] + k
Named(sp, i, k) == {<<sp.bpos[q] + 1, sp.browind[q]>> : q \in (sp.bcolptr[Col0(sp, i, k) + 1] + 1)..sp.bcolptr[Col0(sp, i, k) + 2]}
ShapeOk(v, sp) ==
    /\ Len(sp.sairowptr) = v.n + 1 /\ sp.sairowptr[1] = 0 /\ Len(sp.nvars) = v.n /\ Len(sp.neqns) = v.n /\ Len(sp.central) = v.n
    /\ \A i \in Rows(v) : sp.sairowptr[i+2] - sp.sairowptr[i+1] = sp.nvars[i+1] /\ sp.nvars[i+1] = Cardinality(Span(v, i))
    /\ LET t == sp.sairowptr[v.n + 1] IN
       /\ Len(sp.bcolptr) = t + 1 /\ sp.bcolptr[1] = 0
       /\ \A k \in 1..t : sp.bcolptr[k] <= sp.bcolptr[k+1]
       /\ sp.bcolptr[t+1] = Len(sp.bpos) /\ Len(sp.browind) = Len(sp.bpos)
LocalOk(v, sp, i, inc) ==
    LET E == Equations(v, i, inc)
        All == UNION {Named(sp, i, k) : k \in 0..(sp.nvars[i+1] - 1)}
    IN /\ sp.neqns[i+1] = Cardinality(E)
       /\ \A k \in 0..(sp.nvars[i+1] - 1) :
            LET row == v.ci[v.rb[i+1] + k + 1] want == {q \in Span(v, row) : v.ci[q] \in E} IN
            /\ {x[1] : x \in Named(sp, i, k)} = want
            /\ sp.bcolptr[Col0(sp, i, k) + 2] - sp.bcolptr[Col0(sp, i, k) + 1] = Cardinality(want)
       /\ \A x \in All : x[2] \in 0..(Cardinality(E) - 1)
       /\ \A x, y \in All : v.ci[x[1]] = v.ci[y[1]] <=> x[2] = y[2]
       /\ \A x \in All : v.ci[x[1]] = i <=> x[2] = sp.central[i+1]
PatternOk(v, sp, inc) == ShapeOk(v, sp) /\ \A i \in Rows(v) : LocalOk(v, sp, i, inc)
===============================================================================
