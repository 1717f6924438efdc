------------------------------ MODULE AsyncRelax ------------------------------
(* Asynchronous sweeps over the rows of a system: triangular solves and         *)
(* (chaotic) relaxations by a team of threads.  A job is a sequence of stages;  *)
(* a stage sweeps one vector a number of times, in given directions, rows are   *)
(* handed out in chunks in the order of the direction, threads do not wait for  *)
(* each other between the sweeps of a stage but do between stages.  A thread    *)
(* reads the entries its row needs one at a time, then writes the row's entry   *)
(* once.  When all threads have finished a stage its result becomes the         *)
(* right-hand side of the next (as in L U z = r), which starts from its own     *)
(* initial guess.                                                               *)
EXTENDS Relax
CONSTANTS Thread, Chunk
VARIABLES job,      \* sequence of stages [kind, dirs, m, d, init, x0], init: "zero", "rhs" or "given" (x0)
          stage,    \* the current stage; Len(job) + 1 at the end
          b, x,     \* right-hand side and iterate of the current stage
          cnt,      \* updates each row has had in this stage
          given,    \* given[k]: how many rows of sweep k have been handed out
          pc, sweep, rows, need, acc,      \* thread-local
          good, tgood       \* history: entries whose value was computed from good values only
rvars == <<job, stage, b, x, cnt, given, pc, sweep, rows, need, acc, good, tgood>>
S == job[stage]
M == S.m
Guess0(s, rhs) == CASE s.init = "zero" -> Zeros(s.m) [] s.init = "rhs" -> rhs [] OTHER -> s.x0
\* values of variables at the start of stage k
Fresh(s, rhs) ==
    /\ b' = rhs /\ x' = Guess0(s, rhs) /\ cnt' = [k \in 1..s.m.n |-> 0] /\ given' = [k \in 1..Len(s.dirs) |-> 0]
    /\ pc' = [t \in Thread |-> "claim"] /\ sweep' = [t \in Thread |-> 1] /\ rows' = [t \in Thread |-> <<>>]
    /\ need' = [t \in Thread |-> {}] /\ acc' = [t \in Thread |-> <<>>]
    /\ good' = [k \in 1..s.m.n |-> FALSE] /\ tgood' = [t \in Thread |-> TRUE]
BeginJob(j, rhs) ==
    /\ job = j /\ stage = 1 /\ b = rhs /\ x = Guess0(j[1], rhs) /\ cnt = [k \in 1..j[1].m.n |-> 0] /\ given = [k \in 1..Len(j[1].dirs) |-> 0]
    /\ pc = [t \in Thread |-> "claim"] /\ sweep = [t \in Thread |-> 1] /\ rows = [t \in Thread |-> <<>>]
    /\ need = [t \in Thread |-> {}] /\ acc = [t \in Thread |-> <<>>]
    /\ good = [k \in 1..j[1].m.n |-> FALSE] /\ tgood = [t \in Thread |-> TRUE]
\* the k-th row (from 0) in the order of a direction
Nth(dir, k) == IF dir = "up" THEN k ELSE M.n - 1 - k
Claim(t) ==
    /\ stage <= Len(job) /\ pc[t] = "claim" /\ sweep[t] <= Len(S.dirs)
    /\ LET s == sweep[t] IN
       IF given[s] < M.n
       THEN LET e == IF given[s] + Chunk < M.n THEN given[s] + Chunk ELSE M.n IN
            /\ given' = [given EXCEPT ![s] = e]
            /\ rows' = [rows EXCEPT ![t] = [k \in 1..(e - given[s]) |-> Nth(S.dirs[s], given[s] + k - 1)]]
            /\ pc' = [pc EXCEPT ![t] = "start"] /\ UNCHANGED sweep
       ELSE sweep' = [sweep EXCEPT ![t] = s + 1] /\ UNCHANGED <<given, rows, pc>>
    /\ UNCHANGED <<job, stage, b, x, cnt, need, acc, good, tgood>>
StartRow(t) ==
    /\ pc[t] = "start"
    /\ IF rows[t] = <<>> THEN pc' = [pc EXCEPT ![t] = "claim"] /\ UNCHANGED <<need, acc, tgood>>
       ELSE /\ need' = [need EXCEPT ![t] = Deps(S.kind, M, Head(rows[t]))] /\ acc' = [acc EXCEPT ![t] = <<>>]
            /\ tgood' = [tgood EXCEPT ![t] = TRUE] /\ pc' = [pc EXCEPT ![t] = "read"]
    /\ UNCHANGED <<job, stage, b, x, cnt, given, sweep, rows, good>>
\* acc[t]: the values read, by position
Read(t) ==
    /\ pc[t] = "read" /\ need[t] # {}
    /\ LET p == Min(need[t]) IN
       /\ acc' = [acc EXCEPT ![t] = (p :> x[M.ci[p] + 1]) @@ @]
       /\ tgood' = [tgood EXCEPT ![t] = @ /\ good[M.ci[p] + 1]]
       /\ need' = [need EXCEPT ![t] = @ \ {p}]
    /\ UNCHANGED <<job, stage, b, x, cnt, given, pc, sweep, rows, good>>
Write(t) ==
    /\ pc[t] = "read" /\ need[t] = {}
    /\ LET i == Head(rows[t]) IN
       /\ x' = [x EXCEPT ![i+1] = RowEq(S.kind, M, S.d, b, i, LAMBDA p : acc[t][p])]
       /\ cnt' = [cnt EXCEPT ![i+1] = @ + 1]
       /\ good' = [good EXCEPT ![i+1] = tgood[t]]
    /\ rows' = [rows EXCEPT ![t] = Tail(@)] /\ pc' = [pc EXCEPT ![t] = "start"]
    /\ UNCHANGED <<job, stage, b, given, sweep, need, acc, tgood>>
StageDone == stage <= Len(job) /\ \A t \in Thread : pc[t] = "claim" /\ sweep[t] = Len(S.dirs) + 1
NextStage == /\ StageDone /\ stage' = stage + 1 /\ UNCHANGED job
             /\ IF stage = Len(job) THEN UNCHANGED <<b, x, cnt, given, pc, sweep, rows, need, acc, good, tgood>>
                ELSE Fresh(job[stage + 1], x)
RNext == NextStage \/ \E t \in Thread : Claim(t) \/ StartRow(t) \/ Read(t) \/ Write(t)
Finished == stage = Len(job) + 1

\* ---- properties ----
Cur == IF stage <= Len(job) THEN S ELSE job[Len(job)]
CountsBounded == \A k \in DOMAIN cnt : cnt[k] <= Len(Cur.dirs)
CountsComplete == StageDone \/ Finished => \A k \in DOMAIN cnt : cnt[k] = Len(Cur.dirs)
Triangular == Cur.kind # "relax"
ExactX == CASE Cur.kind \in {"lower", "forward"} -> Sweep(Cur.kind, "up", Cur.m, Cur.d, b, Zeros(Cur.m))
            [] OTHER -> Sweep(Cur.kind, "down", Cur.m, Cur.d, b, Zeros(Cur.m))
\* whatever was computed from exact values only is exact; rows without dependencies are from the first update on
GoodIsExact == Triangular => \A k \in DOMAIN good : good[k] => VSame(x[k], ExactX[k])
\* one thread obtains exactly what the sequential method does
Sequential == Cardinality(Thread) = 1 /\ StageDone => VecSame(x, RunSweeps(S.kind, S.dirs, M, S.d, b, Guess0(S, b)))
SequentialExact == Cardinality(Thread) = 1 /\ StageDone /\ Len(Cur.dirs) > 0 /\ Triangular => VecSame(x, ExactX)
\* as many sweeps as the longest chain of dependencies make a triangular solve exact however the threads interleave...
\* ...provided each sweep is complete before the next; without that, n sweeps still are not enough, so no such property is stated
\* an exact solution stays one
Fixed == Solves(Cur.kind, Cur.m, Cur.d, b, x)
Termination == <>Finished
===============================================================================
