----------------------------- MODULE T_AsyncRelax -----------------------------
(* Applications and relaxations by several threads observed on the real code   *)
(* under controlled schedules.  A case is: begin (method, matrix, options, the *)
(* value each entry had before its first sweep update; pm: the matrix computed), one line per published *)
(* entry with the values read for it, end (the vector returned).  A published  *)
(* entry is the composition StartRow ; Read* ; Write of AsyncRelax for one     *)
(* thread.  Where the code did not read a needed entry during the update, any  *)
(* value visible since the thread's previous update is accepted.               *)
EXTENDS AsyncRelax, Solver, Names, FloatRing, Trace
VARIABLES hist,      \* hist[i]: the values entry i has had in this stage, with the line at which each was published
          last,      \* last[t]: the line at which thread t last published
          first,     \* the line at which the stage began
          hdr        \* the begin line
tvars == <<hist, last, first, hdr>>
Threads == 0..7
MCThread == Threads
Init == l = 1 /\ hist = <<>> /\ last = <<>> /\ first = 0 /\ hdr = <<>> /\ job = <<>> /\ stage = 0 /\ b = <<>> /\ x = <<>> /\ cnt = <<>> /\ given = <<>>
        /\ pc = <<>> /\ sweep = <<>> /\ rows = <<>> /\ need = <<>> /\ acc = <<>> /\ good = <<>> /\ tgood = <<>>
Local == <<given, pc, sweep, rows, need, acc, tgood>>
\* the job that a call is
St(kind, dirs, m, d, i) == [kind |-> kind, dirs |-> dirs, m |-> m, d |-> d, init |-> i, x0 |-> <<>>]
Given(kind, dirs, m, d, g) == [kind |-> kind, dirs |-> dirs, m |-> m, d |-> d, init |-> "given", x0 |-> g]
InitOf(e, k) == IF k = 1 /\ e.ainit # "none" THEN "zero" ELSE IF e.ainit = "zero" THEN "zero" ELSE IF e.ainit = "jacobi" THEN "rhs" ELSE "any"
JobOf(e, prep) ==
    CASE e.method \in Ilu -> <<St("lower", Repeat(<<"up">>, e.n), prep.lu, <<>>, InitOf(e, 1)), St("upper", Repeat(<<"down">>, e.n), prep.lu, InvDiag(prep.lu), InitOf(e, 2))>>
      [] e.method \in Sgs /\ e.call = "app" -> <<St("forward", Repeat(<<"up">>, e.n), e.m, prep.d, InitOf(e, 1)), St("backward", Repeat(<<"down">>, e.n), e.m, prep.d, InitOf(e, 2))>>
      [] e.method = "gs" -> <<Given("relax", Repeat(<<"up">>, e.n), e.m, prep.d, e.z0)>>
      [] e.method \in Sgs -> <<Given("relax", Repeat(<<"up", "down">>, e.n), e.m, prep.d, e.z0)>>
RhsOf(e, prep) == IF e.method \in Ilu /\ e.scaling = 1 THEN VScaleBy(prep.sv, e.r) ELSE e.r
VFin(v) == \A k \in DOMAIN v : BFinite(v[k])
GuessRight(s, g, rhs) == s.init = "any" \/ (LET w == Guess0(s, rhs) IN ~VFin(w) \/ VecSame(g, w))
BeginStage(s, g, rhs, w) ==
    /\ b' = rhs /\ x' = g /\ cnt' = [k \in 1..s.m.n |-> 0] /\ good' = [k \in 1..s.m.n |-> FALSE]
    /\ hist' = [k \in 1..s.m.n |-> <<<<0, g[k]>>>>] /\ first' = w
Begin ==
    /\ More /\ Line.op = "begin"
    /\ LET e == Line IN
       IF e.crash # 0 THEN Reject("the call crashed or did not return") /\ l' = After(l) /\ UNCHANGED <<rvars, tvars>>
       ELSE IF e.exc # 0 THEN Reject("the call raised an error") /\ l' = After(l) /\ UNCHANGED <<rvars, tvars>>
       ELSE LET prep == Prep([method |-> e.method, scaling |-> e.scaling = 1], e.pm)
                j == JobOf(e, prep)
                rhs == RhsOf(e, prep)
                why == FirstFailure(<<
                    <<Len(e.g) = Len(j) /\ e.nupd = e.m.n * (Len(j[1].dirs) + IF Len(j) = 2 THEN Len(j[2].dirs) ELSE 0), "an entry was not updated exactly once per sweep">>,
                    <<GuessRight(j[1], e.g[1], rhs), "the sweeps did not start from the documented initial guess">> >>)
            IN IF why # "" THEN Reject(why) /\ l' = After(l) /\ UNCHANGED <<rvars, tvars>>
               ELSE /\ hdr' = [e |-> e, sv |-> IF e.scaling = 1 THEN prep.sv ELSE <<>>] /\ job' = j /\ stage' = 1
                    /\ BeginStage(j[1], e.g[1], rhs, l)
                    /\ last' = [t \in Threads |-> l]
                    /\ l' = l + 1 /\ UNCHANGED Local
\* values of entry i visible at some moment after line w
VisibleSince(i, w) == {hist[i][k][2] : k \in {k \in 1..Len(hist[i]) : k = Len(hist[i]) \/ hist[i][k+1][1] > w}}
ReadsOf(e, i) == {k \in 1..Len(e.reads) : e.reads[k][1] = i - 1}
Candidates(e, i, w) == IF ReadsOf(e, i) # {} THEN UNION {{e.reads[k][2][c] : c \in 1..Len(e.reads[k][2])} : k \in ReadsOf(e, i)}
                       ELSE VisibleSince(i, w)
RECURSIVE Assignments(_, _)
Assignments(D, cand) == IF D = {} THEN {<<>>}
                        ELSE LET q == Max(D) IN {(q :> v) @@ c : v \in cand[q], c \in Assignments(D \ {q}, cand)}
Explained(e, i) ==
    LET D == {M.ci[p] + 1 : p \in Deps(S.kind, M, i - 1)}
        cand == [q \in D |-> Candidates(e, q, last[e.t])]
    IN \/ \E q \in D : cand[q] = {} \/ \E v \in cand[q] : ~BFinite(v)
       \/ ~BFinite(b[i])
       \/ \E c \in Assignments(D, cand) :
             LET v == RowEq(S.kind, M, S.d, b, i - 1, LAMBDA p : c[M.ci[p] + 1]) IN ~BFinite(v) \/ BSame(e.v, v)
\* under a fair schedule with several rows to hand out, a threaded method's rows go to more than one thread
Shared == hdr.e.fair = 1 /\ hdr.e.method \in {"gs", "ilu0", "sfilu0"} => Cardinality({t \in Threads : last[t] > first}) > 1
Complete == \A k \in DOMAIN cnt : cnt[k] = Len(S.dirs)
\* the next stage begins with its first update
Turn == /\ More /\ Line.op = "upd" /\ stage = 1 /\ Len(job) = 2 /\ Line.s = 2
        /\ LET why == FirstFailure(<<
                <<Shared, "one thread did all the work although threading is on">>,
                <<Complete, "the second triangular solve began before the first had done its sweeps">>,
                <<GuessRight(job[2], hdr.e.g[2], x), "the second solve did not start from the documented initial guess">> >>)
           IN IF why # "" THEN Reject(why) /\ l' = After(l) /\ UNCHANGED <<rvars, tvars>>
              ELSE /\ stage' = 2 /\ BeginStage(job[2], hdr.e.g[2], x, l - 1) /\ last' = [t \in Threads |-> l - 1]
                   /\ UNCHANGED <<job, hdr, l, Local>>
Upd ==
    /\ More /\ Line.op = "upd" /\ ~(stage = 1 /\ Len(job) = 2 /\ Line.s = 2)
    /\ LET e == Line
           i == e.i + 1
           why == FirstFailure(<<
                <<ThreadedApply(hdr.e.method) \/ e.t = 0, "several threads although threading is off">>,
                <<e.s = stage, "the first triangular solve went on during the second">>,
                <<cnt[i] < Len(S.dirs), "an entry was updated more often than once per sweep">>,
                <<Explained(e, i), "a published entry is not the row's equation on values visible to the thread">> >>)
       IN IF why # "" THEN Reject(why) /\ l' = After(l) /\ UNCHANGED <<rvars, tvars>>
          ELSE /\ x' = [x EXCEPT ![i] = e.v] /\ cnt' = [cnt EXCEPT ![i] = @ + 1]
               /\ good' = [good EXCEPT ![i] = \A p \in Deps(S.kind, M, i - 1) : good[M.ci[p] + 1]]
               /\ hist' = [hist EXCEPT ![i] = Append(@, <<l, e.v>>)]
               /\ last' = [last EXCEPT ![e.t] = l]
               /\ l' = l + 1 /\ UNCHANGED <<job, stage, b, first, hdr, Local>>
Returned(e) == LET w == IF hdr.sv # <<>> THEN VScaleBy(hdr.sv, x) ELSE x IN ~VFin(w) \/ VecSame(e.z, w)
SequentialResult ==
    LET e == hdr.e
        o == [method |-> e.method, scaling |-> e.scaling = 1, napply |-> e.n]
        prep == Prep(o, e.pm)
    IN IF e.call = "app" THEN ApplyOf(o, prep, e.m, e.r, e.z0)
       ELSE RelaxOf(o, prep, e.m, e.r, e.z0, [ctol |-> FALSE, maxits |-> e.n])
End ==
    /\ More /\ Line.op = "end"
    /\ LET e == Line
           why == FirstFailure(<<
                <<stage = Len(job), "a triangular solve was not performed">>,
                <<Complete, "an entry was not updated exactly once per sweep">>,
                <<Shared, "one thread did all the work although threading is on">>,
                <<e.intact = 1, "the matrix was changed">>,
                <<e.rsame = 1, "the right-hand side was changed">>,
                <<Returned(e), "the vector returned is not the last values computed">>,
                <<e.inorder = 1 => LET w == SequentialResult IN ~VFin(w) \/ VecSame(e.z, w), "work done in order did not give the sequential result">>,
                <<e.fixed = 1 => VecSame(e.z, hdr.e.z0), "an exact solution did not stay unchanged">> >>)
       IN Judge(why) /\ l' = l + 1 /\ UNCHANGED <<rvars, tvars>>
Next == Begin \/ Turn \/ Upd \/ End \/ (Done /\ UNCHANGED <<rvars, tvars>>)
===============================================================================
