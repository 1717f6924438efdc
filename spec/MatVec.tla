-------------------------------- MODULE MatVec --------------------------------
(* Matrix-vector products by a team of threads.                                *)
(* Row form: each thread owns rows; it first sets its entry of the result to   *)
(* beta*y and then adds the contributions of the row one at a time.  Column    *)
(* form: all entries are first set to beta*y by the team (a barrier follows);  *)
(* then each thread adds, for the columns it owns, the contributions into any  *)
(* row, each addition being one atomic read-modify-write.  z may be y itself:  *)
(* entry k of y is read only when entry k of z is set.                         *)
EXTENDS Sparse
CONSTANTS Thread, Owner(_, _)          \* Owner(k, n): which thread handles row/column k of n
VARIABLES m, form, alpha, beta, x, y0, z, todo, phase
mvvars == <<m, form, alpha, beta, x, y0, z, todo, phase>>

\* one unit of work: [t, op, row, pos]
SetOp(k) == [t |-> Owner(k, m.n), op |-> "set", row |-> k, pos |-> 0]
AddOp(t, i, p) == [t |-> t, op |-> "add", row |-> i, pos |-> p]
\* what must be done before unit u in the row form: the set, and the row's earlier contributions
Before(u, v) == /\ u.t = v.t /\ u.row = v.row /\ u.pos < v.pos
AddsOfRow == UNION {{AddOp(Owner(i, m.n), i, p) : p \in Pos(m, i)} : i \in Rows(m)}
AddsOfCol == UNION {{AddOp(Owner(m.ci[p], m.n), i, p) : p \in Pos(m, i)} : i \in Rows(m)}

StartProduct(mm, f, a, b, xx, yy) ==
    /\ m' = mm /\ form' = f /\ alpha' = a /\ beta' = b /\ x' = xx /\ y0' = yy /\ z' = yy
    /\ phase' = "start" /\ todo' = {}
Plan == /\ phase = "start"
        /\ todo' = {SetOp(k) : k \in Rows(m)} \cup (IF form = "row" THEN AddsOfRow ELSE {})
        /\ phase' = "run" /\ UNCHANGED <<m, form, alpha, beta, x, y0, z>>
Work(u) == /\ phase \in {"run", "run2"} /\ u \in todo
           /\ form = "row" => \A v \in todo : ~Before(v, u)
           /\ z' = [z EXCEPT ![u.row + 1] =
                      IF u.op = "set" THEN VTimes(beta, z[u.row + 1])     \* reads y, which z aliases
                      ELSE VAdd(@, VTimes(alpha, VAct(m.a[u.pos], x[m.ci[u.pos] + 1])))]
           /\ todo' = todo \ {u} /\ UNCHANGED <<m, form, alpha, beta, x, y0, phase>>
Barrier == /\ form = "col" /\ phase = "run" /\ todo = {}
           /\ todo' = AddsOfCol /\ phase' = "run2" /\ UNCHANGED <<m, form, alpha, beta, x, y0, z>>
Finished == todo = {} /\ phase = (IF form = "row" THEN "run" ELSE "run2")
Return == Finished /\ phase' = "end" /\ UNCHANGED <<m, form, alpha, beta, x, y0, z, todo>>
MVNext == Plan \/ Barrier \/ Return \/ \E u \in todo : Work(u)

Product == Gemv(m, alpha, x, beta, y0)
ProductExact == Finished \/ phase = "end" => VecSame(z, Product)
Untouched == \A k \in Rows(m) : (\A u \in todo : u.row # k) /\ phase = "start" => z[k+1] = y0[k+1]
===============================================================================
