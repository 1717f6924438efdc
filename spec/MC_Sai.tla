-------------------------------- MODULE MC_Sai --------------------------------
(* All small sparsity patterns with stored diagonal: the index lists as the     *)
(* library builds them are the ones specified, and the local systems gathered   *)
(* through them have exactly the rows of the approximate inverse as solutions.  *)
EXTENDS Sai, Field, TLC
CONSTANT N
TransposeId(a) == a
VARIABLES m, w, inc, sp, stage, row, acc
vars == <<m, w, inc, sp, stage, row, acc>>
Patterns == {f \in [1..N -> SUBSET (0..(N-1))] : \A i \in 1..N : (i-1) \in f[i]}
RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE SumTo(f, k - 1) + f[k]
Mat(f, q) == LET ci == FlattenSeq([i \in 1..N |-> SetToSortSeq(f[i], <)]) IN
             [n |-> N, bs |-> 1, ci |-> ci, rp |-> [k \in 1..(N+1) |-> SumTo([i \in 1..N |-> Cardinality(f[i])], k-1)], a |-> [p \in DOMAIN ci |-> 1 + ((p * q) % (P - 1))]]
Empty == [bpos |-> <<>>, browind |-> <<>>, bcolptr |-> <<0>>, sairowptr |-> <<0>>, nvars |-> <<>>, neqns |-> <<>>, central |-> <<>>]
Init == /\ \E f \in Patterns, q \in 1..2 : m = Mat(f, q)
        /\ w \in {"whole", "lower", "upper"} /\ inc \in BOOLEAN /\ sp = Empty /\ stage = "build" /\ row = 0 /\ acc = <<>>
\* one row at a time: the equations are collected in increasing order (full) or in the order of the row (incomplete)
Order(v, i) == IF inc THEN [k \in 1..Cardinality(Span(v, i)) |-> v.ci[v.rb[i+1] + k]] ELSE SetToSortSeq(Equations(v, i, FALSE), <)
IndexIn(s, x) == (CHOOSE k \in DOMAIN s : s[k] = x) - 1
Local(v, i, k) == LET r == v.ci[v.rb[i+1] + k] eq == Order(v, i)
                      qs == SetToSortSeq({q \in Span(v, r) : \E e \in DOMAIN eq : eq[e] = v.ci[q]}, <)
                  IN [e \in DOMAIN qs |-> <<qs[e] - 1, IndexIn(eq, v.ci[qs[e]])>>]
AddRow == /\ stage = "build" /\ row < N
          /\ LET v == View(m, w) n == Cardinality(Span(v, row)) cols == [k \in 1..n |-> Local(v, row, k)] all == FlattenSeq(cols) IN
             sp' = [sp EXCEPT !.bpos = @ \o [e \in DOMAIN all |-> all[e][1]], !.browind = @ \o [e \in DOMAIN all |-> all[e][2]],
                              !.bcolptr = @ \o [k \in 1..n |-> Len(sp.bpos) + SumTo([c \in 1..n |-> Len(cols[c])], k)],
                              !.sairowptr = Append(@, @[Len(@)] + n), !.nvars = Append(@, n), !.neqns = Append(@, Len(Order(v, row))),
                              !.central = Append(@, IndexIn(Order(v, row), row))]
          /\ row' = row + 1 /\ UNCHANGED <<m, w, inc, stage, acc>>
Built == stage = "build" /\ row = N /\ stage' = "solve" /\ row' = 0 /\ UNCHANGED <<m, w, inc, sp, acc>>
\* the dense local system of row i
Lhs(i, e, k) == LET S == {x \in Named(sp, i, k) : x[2] = e} IN IF S = {} THEN 0 ELSE m.a[(CHOOSE x \in S : TRUE)[1]]
LocalSolution(i, x) == \A e \in 0..(sp.neqns[i+1] - 1) :
    LET n == sp.nvars[i+1] IN SumTo([k \in 1..n |-> Lhs(i, e, k-1) * x[k]], n) % P = (IF e = sp.central[i+1] THEN 1 ELSE 0)
AsRow(v, i, x) == [p \in DOMAIN m.ci |-> IF p \in Span(v, i) THEN x[p - v.rb[i+1]] ELSE 0]
Vecs(n) == [1..n -> Elem]
\* the solutions of the row's local system
Solve == /\ stage = "solve" /\ row < N /\ acc' = {x \in Vecs(sp.nvars[row+1]) : LocalSolution(row, x)} /\ row' = row + 1 /\ UNCHANGED <<m, w, inc, sp, stage>>
Next == AddRow \/ Built \/ Solve
Spec == Init /\ [][Next]_vars
Views == row = 0 /\ stage = "build" /\ w # "whole" => IsTriangle(m, View(m, w), w)
ListsRight == stage = "solve" => PatternOk(View(m, w), sp, inc)
SystemsRight == stage = "solve" /\ row > 0 =>
    LET v == View(m, w) i == row - 1 IN \A x \in Vecs(sp.nvars[row]) :
        x \in acc <=> \A j \in Equations(v, i, inc) : RowTimesCol(v, AsRow(v, i, x), i, j) = Delta(v, i, j)
\* triangular matrices with invertible diagonal have a complete incomplete inverse
Solvable == stage = "solve" /\ row > 0 /\ inc /\ w # "whole" => acc # {}
===============================================================================
