-------------------------------- MODULE MC_Scan --------------------------------
(* The parallel prefix sum under every interleaving, for every length up to     *)
(* MaxN and 1 to MaxT threads; the selection sort on all short sequences.       *)
EXTENDS Scan, TLC
CONSTANTS MaxN, MaxT, WithBarrier
VARIABLES n, T, c,         \* entries, threads, the array
          pc, i, acc, lvl  \* per thread: where it is, position, running value; the combination level
vars == <<n, T, c, pc, i, acc, lvl>>
Thread == 0..(MaxT - 1)
Orig(m) == [k \in 1..m |-> 4 ^ (k - 1)]
Init == /\ n \in 1..MaxN /\ T \in 1..MaxT /\ c = Orig(n)
        /\ pc = [t \in Thread |-> IF t < T THEN "read" ELSE "end"] /\ i = [t \in Thread |-> 0] /\ acc = [t \in Thread |-> 0] /\ lvl = -1
All(S) == \A t \in Thread : t < T => pc[t] \in S
\* the values at and after the start of a share must be read before the neighbour writes there
Read(t) == /\ pc[t] = "read"
           /\ acc' = [acc EXCEPT ![t] = IF Start(n, T, t) < n THEN c[Start(n, T, t) + 1] ELSE 0]
           /\ i' = [i EXCEPT ![t] = Start(n, T, t) + 1] /\ pc' = [pc EXCEPT ![t] = "barrier"] /\ UNCHANGED <<n, T, c, lvl>>
Pass == /\ All({"barrier"}) \/ ~WithBarrier
        /\ \E t \in Thread : pc[t] = "barrier" /\ pc' = (IF WithBarrier THEN [s \in Thread |-> IF s < T THEN "sum" ELSE "end"] ELSE [pc EXCEPT ![t] = "sum"])
        /\ UNCHANGED <<n, T, c, i, acc, lvl>>
Sum(t) == /\ pc[t] = "sum"
          /\ IF i[t] < End(n, T, t)
             THEN /\ c' = [c EXCEPT ![i[t] + 1] = acc[t]] /\ acc' = [acc EXCEPT ![t] = @ + c[i[t] + 1]]
                  /\ i' = [i EXCEPT ![t] = @ + 1] /\ pc' = pc
             ELSE /\ c' = IF Start(n, T, t) < n /\ End(n, T, t) < n THEN [c EXCEPT ![End(n, T, t) + 1] = acc[t]] ELSE c
                  /\ pc' = [pc EXCEPT ![t] = "join"] /\ UNCHANGED <<acc, i>>
          /\ UNCHANGED <<n, T, lvl>>
\* all shares done, or all tasks of a level done: the next level
Task(t, l) == IF l < Levels(T) /\ t < Tasks(T, l) THEN "take" ELSE "join"      \* task t of a level goes to thread t
NextLevel == /\ All({"join"}) /\ lvl < Levels(T)
             /\ lvl' = lvl + 1
             /\ c' = IF lvl = -1 THEN [c EXCEPT ![1] = 0] ELSE c
             /\ pc' = [t \in Thread |-> IF t >= T THEN "end" ELSE IF lvl' = Levels(T) THEN "end" ELSE Task(t, lvl')]
             /\ UNCHANGED <<n, T, i, acc>>
Take(t) == /\ pc[t] = "take"
           /\ i' = [i EXCEPT ![t] = LStart(n, T, lvl, t)] /\ acc' = [acc EXCEPT ![t] = c[LStart(n, T, lvl, t)]]
           /\ pc' = [pc EXCEPT ![t] = "add"] /\ UNCHANGED <<n, T, c, lvl>>
AddTo(t) == /\ pc[t] = "add"
            /\ IF i[t] < LEnd(n, T, lvl, t)
               THEN c' = [c EXCEPT ![i[t] + 1] = @ + acc[t]] /\ i' = [i EXCEPT ![t] = @ + 1] /\ pc' = pc
               ELSE pc' = [pc EXCEPT ![t] = "join"] /\ UNCHANGED <<c, i>>
            /\ UNCHANGED <<n, T, acc, lvl>>
Next == NextLevel \/ Pass \/ \E t \in Thread : Read(t) \/ Sum(t) \/ Take(t) \/ AddTo(t)
Finished == All({"end"})
Right == Finished => c = Exclusive(Orig(n))
Ends == []<>Finished
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
ASSUME SelectionSorts == \A m \in 0..4 : \A ix \in [1..m -> 0..3] :
    LET v == [k \in 1..m |-> k] r == Selection(ix, v, m) IN SortedInto(ix, v, r[1], r[2])
================================================================================
