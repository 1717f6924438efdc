-------------------------------- MODULE Levels --------------------------------
(* Level scheduling: the construction of levels of consecutive independent      *)
(* rows, and sweeps by several threads that wait for each other after each      *)
(* level.  Whatever the interleaving, such sweeps give the sequential result.   *)
EXTENDS Relax
\* a schedule lv: first row of each level, then the number of rows
ValidLevels(am, lvs) ==
    /\ Len(lvs) >= 1 /\ lvs[1] = 0 /\ lvs[Len(lvs)] = am.n
    /\ \A g \in 1..(Len(lvs)-1) : lvs[g] < lvs[g+1]
    /\ \A g \in 1..(Len(lvs)-1) : \A i \in lvs[g]..(lvs[g+1]-1) : \A p \in Pos(am, i) :
           am.ci[p] = i \/ am.ci[p] < lvs[g] \/ am.ci[p] >= lvs[g+1]
CONSTANTS Thread, Waits     \* threads wait for each other after a level (they must)
VARIABLES m, dep, inode, lv, phase,                  \* construction of the levels
          job, at, b, x,                             \* the sweeps: at = <<stage, sweep, level>>
          todo, row, need, acc                       \* rows of the level not yet claimed; thread-local
lvars == <<m, dep, inode, lv, phase, job, at, b, x, todo, row, need, acc>>
None == 0-1
LevelInit(mat, j, rhs) ==
    /\ m = mat /\ dep = [k \in 1..mat.n |-> {mat.ci[p] : p \in Pos(mat, k-1)}] /\ inode = 0 /\ lv = <<0>> /\ phase = "scan"
    /\ job = j /\ at = <<0, 0, 0>> /\ b = rhs /\ x = j[1].x0
    /\ todo = {} /\ row = [t \in Thread |-> None] /\ need = [t \in Thread |-> {}] /\ acc = [t \in Thread |-> <<>>]
SameSweep == UNCHANGED <<job, at, b, x, todo, row, need, acc>>
\* take the rows that no longer depend on an earlier one, ...
ScanRow == /\ phase = "scan" /\ inode < m.n /\ Min(dep[inode+1]) >= inode /\ inode' = inode + 1
           /\ UNCHANGED <<m, dep, lv, phase>> /\ SameSweep
CloseLevel == /\ phase = "scan" /\ ~(inode < m.n /\ Min(dep[inode+1]) >= inode)
              /\ lv' = Append(lv, inode) /\ phase' = "remove" /\ UNCHANGED <<m, dep, inode>> /\ SameSweep
\* ... then forget the dependencies on them
Forget == /\ phase = "remove"
          /\ LET new == lv[Len(lv)-1]..(inode-1) IN
             dep' = [k \in 1..m.n |-> {c \in dep[k] : ~(c \in new /\ c # k-1 /\ (k-1) \in dep[c+1])}]
          /\ phase' = (IF inode < m.n THEN "scan" ELSE "sweep") /\ UNCHANGED <<m, inode, lv>> /\ SameSweep
\* ---- sweeps ----
NL == Len(lv) - 1
Stage == job[at[1]]
LevelRows(g) == lv[g]..(lv[g+1]-1)
LevelOf(pos) == IF job[pos[1]].dirs[pos[2]] = "up" THEN pos[3] ELSE NL + 1 - pos[3]
\* the level after position pos; <<0,0,0>> comes before the first
After1(pos) == IF pos[1] = 0 THEN <<1, 1, 1>> ELSE IF pos[3] < NL THEN <<pos[1], pos[2], pos[3] + 1>>
               ELSE IF pos[2] < Len(job[pos[1]].dirs) THEN <<pos[1], pos[2] + 1, 1>> ELSE <<pos[1] + 1, 1, 1>>
Idle == \A t \in Thread : row[t] = None
Finished == phase = "sweep" /\ at[1] > Len(job)
\* all threads have arrived: the next level
NextLevel ==
    /\ phase = "sweep" /\ ~Finished /\ todo = {} /\ (Idle \/ ~Waits)
    /\ at' = After1(at)
    /\ IF at'[1] > Len(job) THEN UNCHANGED <<todo, b, x>>
       ELSE /\ todo' = LevelRows(LevelOf(at'))
            /\ IF at'[1] # at[1] /\ at[1] > 0 THEN b' = x /\ x' = job[at'[1]].x0 ELSE UNCHANGED <<b, x>>
    /\ UNCHANGED <<m, dep, inode, lv, phase, job, row, need, acc>>
Claim(t) == /\ phase = "sweep" /\ row[t] = None
            /\ \E i \in todo : /\ row' = [row EXCEPT ![t] = i] /\ todo' = todo \ {i}
                               /\ need' = [need EXCEPT ![t] = Deps(Stage.kind, Stage.m, i)] /\ acc' = [acc EXCEPT ![t] = <<>>]
            /\ UNCHANGED <<m, dep, inode, lv, phase, job, at, b, x>>
Read(t) == /\ phase = "sweep" /\ row[t] # None /\ need[t] # {}
           /\ LET p == Min(need[t]) IN acc' = [acc EXCEPT ![t] = (p :> x[Stage.m.ci[p] + 1]) @@ @] /\ need' = [need EXCEPT ![t] = @ \ {p}]
           /\ UNCHANGED <<m, dep, inode, lv, phase, job, at, b, x, todo, row>>
Write(t) == /\ phase = "sweep" /\ row[t] # None /\ need[t] = {}
            /\ x' = [x EXCEPT ![row[t]+1] = RowEq(Stage.kind, Stage.m, Stage.d, b, row[t], LAMBDA p : acc[t][p])]
            /\ row' = [row EXCEPT ![t] = None]
            /\ UNCHANGED <<m, dep, inode, lv, phase, job, at, b, todo, need, acc>>
LNext == ScanRow \/ CloseLevel \/ Forget \/ NextLevel \/ \E t \in Thread : Claim(t) \/ Read(t) \/ Write(t)
\* ---- properties ----
LevelsOk == phase = "sweep" => ValidLevels(m, lv)
\* nobody writes what another thread reads in the same level
NoRace == phase = "sweep" /\ ~Finished /\ at[1] > 0 =>
    \A s, t \in Thread : s # t /\ row[s] # None /\ row[t] # None => row[s] \notin {Stage.m.ci[p] : p \in Deps(Stage.kind, Stage.m, row[t])}
RECURSIVE SeqResult(_, _, _)
SeqResult(j, k, rhs) == LET y == RunSweeps(j[k].kind, j[k].dirs, j[k].m, j[k].d, rhs, j[k].x0)
                        IN IF k = Len(j) THEN y ELSE SeqResult(j, k + 1, y)
===============================================================================
