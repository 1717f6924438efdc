------------------------------ MODULE T_AsyncILU ------------------------------
(* Factorizations observed on the real code under controlled schedules.  A     *)
(* case is: begin (matrix, options, the value of every position before its     *)
(* first sweep update), one line per published value with the values read for  *)
(* it, end (the factors returned).  A published value is the composition       *)
(* Start ; Read* ; Publish of AsyncILU for one thread; got may be any value    *)
(* read during it.  Where the code did not read a needed position during the   *)
(* update (it kept the value in a register), any value that was visible since  *)
(* the thread began the row is accepted.                                       *)
EXTENDS AsyncILU, FloatRing, Names, Trace
VARIABLES hist,      \* hist[p]: the values position p has had, with the line at which each was published
          since,     \* since[t]: the line at which thread t began its current row
          rowof,     \* rowof[t]: that row
          last,      \* last[t]: the line at which it last published
          hdr        \* the begin line
tvars == <<hist, since, rowof, last, hdr>>
Threads == 0..7
MCThread == Threads

Kind(k) == CASE k = 0 -> "zero" [] k = 1 -> "original" [] k = 2 -> "sgs" [] k = 3 -> "none"
ScaledOf(e) == IF e.scaling = 1 THEN Scaled(e.m, ScaleVec(e.m)) ELSE e.m
Init == l = 1 /\ hist = <<>> /\ since = <<>> /\ rowof = <<>> /\ last = <<>> /\ hdr = <<>> /\ A = <<>> /\ plist = <<>> /\ f = <<>> /\ cnt = <<>>
        /\ nsweeps = 0 /\ next = <<>> /\ pc = <<>> /\ sweep = <<>> /\ rows = <<>> /\ pos = <<>> /\ acc = <<>> /\ need = <<>>
        /\ got = <<>> /\ good = <<>> /\ tgood = <<>>
Local == <<next, pc, sweep, rows, pos, acc, need, got>>

\* the position lists the code computed, as pairs of positions
CodeLists(e) == [p \in 1..Len(e.m.ci) |-> {<<e.lowerp[k] + 1, e.upperp[k] + 1>> : k \in (e.posptr[p] + 1)..e.posptr[p+1]}]
ListsRight(e, pl) ==
    /\ Len(e.posptr) = Nnz(e.m) + 1 /\ e.posptr[1] = 0
    /\ \A p \in AllPos(e.m) : e.posptr[p] <= e.posptr[p+1]
    /\ e.posptr[Nnz(e.m) + 1] = Len(e.lowerp) /\ Len(e.lowerp) = Len(e.upperp)
    /\ \A p \in AllPos(e.m) : /\ CodeLists(e)[p] = pl[p].pairs
                              /\ e.posptr[p+1] - e.posptr[p] = Cardinality(pl[p].pairs)
\* e.method: the factorization of a solver object of that name
MayThread(e) == IF Has(e, "method") THEN ThreadedFactor(e.method) ELSE e.usethreads = 1
BFin(a) == \A k \in DOMAIN a : FFinite(a[k])
\* an initial guess that the field of doubles cannot hold (division by zero) is not constrained
GuessRight(e, a, pl) == \A p \in AllPos(a) :
    LET g == Guess(Kind(e.init), a, pl, e.f0)[p] IN ~BFin(g) \/ BSame(e.g[p], g)
BeginCase ==
    /\ More /\ Line.op = "begin"
    /\ LET e == Line
           a == ScaledOf(e)
           pl == PositionLists(a)
           why == IF e.crash # 0 THEN "the factorization crashed or did not terminate" ELSE FirstFailure(<<
                <<Has(e, "method") \/ ListsRight(e, pl), "the position lists are not those of the pattern">>,
                <<e.nupd = e.nsweeps * Nnz(a), "a position was not updated exactly once per sweep">>,
                <<GuessRight(e, a, pl), "the iteration did not start from the documented initial guess">> >>)
       IN IF why # "" THEN Reject(why) /\ l' = After(l) /\ UNCHANGED <<ivars, tvars>>
          ELSE /\ hdr' = e /\ A' = a /\ plist' = pl /\ f' = e.g /\ nsweeps' = e.nsweeps
               /\ cnt' = [p \in AllPos(a) |-> 0] /\ good' = [p \in AllPos(a) |-> FALSE] /\ tgood' = <<>>
               /\ hist' = [p \in AllPos(a) |-> <<<<0, e.g[p]>>>>]
               /\ since' = [t \in Threads |-> 0] /\ rowof' = [t \in Threads |-> -1] /\ last' = [t \in Threads |-> 0]
               /\ l' = l + 1 /\ UNCHANGED Local

\* values of position q that were visible at some moment after line w
VisibleSince(q, w) == {hist[q][k][2] : k \in {k \in 1..Len(hist[q]) : k = Len(hist[q]) \/ hist[q][k+1][1] > w}}
ReadsOf(e, q) == {k \in 1..Len(e.reads) : e.reads[k][1] = q - 1}
Candidates(e, q, w) == IF ReadsOf(e, q) # {} THEN UNION {{e.reads[k][2][c] : c \in 1..Len(e.reads[k][2])} : k \in ReadsOf(e, q)}
                       ELSE VisibleSince(q, w)
RECURSIVE Assignments(_, _)
Assignments(S, cand) == IF S = {} THEN {<<>>}
                    ELSE LET q == Max(S) IN {(q :> v) @@ c : v \in cand[q], c \in Assignments(S \ {q}, cand)}
\* some reading of each needed position explains the value; undetermined when a block was read while it changed or the arithmetic left the finite numbers
Explained(e, p, w) ==
    LET ns == Needs(plist[p])
        cand == [q \in ns |-> Candidates(e, q, w)]
    IN \/ \E q \in ns : cand[q] = {} \/ \E x \in cand[q] : ~BFinite(x)
       \/ plist[p].diag # 0 /\ \E x \in cand[plist[p].diag] : ~BRegular(x)
       \/ \E c \in Assignments(ns, cand) :
             LET v == Equation(A, plist[p], p, LAMBDA q : c[q]) IN ~BFinite(v) \/ BSame(e.v, v)
Upd ==
    /\ More /\ Line.op = "upd"
    /\ LET e == Line
           p == e.p + 1
           w == IF rowof[e.t] = plist[p].row THEN since[e.t] ELSE last[e.t]
           why == FirstFailure(<<
                <<cnt[p] < nsweeps, "a position was updated more often than once per sweep">>,
                <<MayThread(hdr) \/ e.t = 0, "several threads although threading is off">>,
                <<Explained(e, p, w), "a published value is not the position's equation on values visible to the thread">> >>)
       IN IF why # "" THEN Reject(why) /\ l' = After(l) /\ UNCHANGED <<ivars, tvars>>
          ELSE /\ f' = [f EXCEPT ![p] = e.v] /\ cnt' = [cnt EXCEPT ![p] = @ + 1]
               /\ good' = [good EXCEPT ![p] = \A q \in Needs(plist[p]) : good[q]]
               /\ hist' = [hist EXCEPT ![p] = Append(@, <<l, e.v>>)]
               /\ since' = [since EXCEPT ![e.t] = w] /\ rowof' = [rowof EXCEPT ![e.t] = plist[p].row]
               /\ last' = [last EXCEPT ![e.t] = l]
               /\ l' = l + 1 /\ UNCHANGED <<A, plist, nsweeps, tgood, Local, hdr>>

\* the factors returned: those of the last updates, diagonal blocks inverted
Returned(e) == \A p \in AllPos(A) :
    LET isd == plist[p].row = plist[p].col
        want == IF isd /\ A.bs > 1 THEN BInv(f[p]) ELSE f[p]
    IN ~BFin(want) \/ ~BFinite(f[p]) \/ ~BFinite(want) \/ BSame(e.f[p], want)
End ==
    /\ More /\ Line.op = "end"
    /\ LET e == Line
           why == FirstFailure(<<
                <<\A p \in AllPos(A) : cnt[p] = nsweeps, "a position was not updated exactly once per sweep">>,
                <<e.intact = 1, "the matrix was changed">>,
                <<(Has(e, "fair") /\ MayThread(hdr)) => Cardinality({t \in Threads : last[t] > 0}) > 1, "one thread did all the work although threading is on">>,
                <<Returned(e), "the factors returned are not the last values computed">>,
                <<e.inorder = 1 /\ nsweeps > 0 => IsFactorization(A, plist, f), "work done in order did not give the exact factorization">>,
                <<hdr.exact = 1 => \A p \in AllPos(A) : BSame(f[p], hdr.f0[p]), "the exact factorization did not stay unchanged">> >>)
       IN Judge(why) /\ l' = l + 1 /\ UNCHANGED <<ivars, tvars>>
Next == BeginCase \/ Upd \/ End \/ (Done /\ UNCHANGED <<ivars, tvars>>)
===============================================================================
