------------------------------- MODULE AsyncILU -------------------------------
(* The asynchronous (Chow-Patel) incomplete factorization: a team of threads   *)
(* makes nsweeps sweeps over the rows; in each sweep rows are handed out in     *)
(* chunks in order, and no thread waits for the others between sweeps.  For    *)
(* each position of its row a thread reads what the position's equation needs, *)
(* one value at a time, accumulates privately, and publishes the result with   *)
(* one write.                                                                  *)
EXTENDS ILU
CONSTANTS Thread, Chunk
VARIABLES A,        \* the (scaled) matrix
          plist,    \* its position lists
          f,        \* the shared factors
          cnt,      \* updates each position has had
          nsweeps,
          next,     \* next[k]: first row of sweep k not handed out yet
          pc, sweep, rows, pos, acc, need, got,   \* thread-local
          good,     \* history: positions whose value was computed from good values only
          tgood     \* history: the values thread t has read for its current position are good
ivars == <<A, plist, f, cnt, nsweeps, next, pc, sweep, rows, pos, acc, need, got, good, tgood>>

Empty == [t \in Thread |-> {}]
Begin(a, pl, g, k) ==
    /\ A = a /\ plist = pl /\ f = g /\ nsweeps = k
    /\ cnt = [p \in AllPos(a) |-> 0]
    /\ next = [s \in 1..k |-> 0]
    /\ pc = [t \in Thread |-> "claim"] /\ sweep = [t \in Thread |-> 1] /\ rows = [t \in Thread |-> <<>>]
    /\ pos = [t \in Thread |-> 0] /\ acc = [t \in Thread |-> RZero(a.bs)]
    /\ need = Empty /\ got = [t \in Thread |-> <<>>]
    /\ good = [p \in AllPos(a) |-> FALSE] /\ tgood = [t \in Thread |-> TRUE]

Shared == <<A, plist, nsweeps>>
\* take the next chunk of rows of the current sweep, or go on to the next sweep without waiting
Claim(t) ==
    /\ pc[t] = "claim" /\ sweep[t] <= nsweeps
    /\ LET s == sweep[t] IN
       IF next[s] < A.n
       THEN LET e == IF next[s] + Chunk < A.n THEN next[s] + Chunk ELSE A.n IN
            /\ next' = [next EXCEPT ![s] = e]
            /\ rows' = [rows EXCEPT ![t] = FlattenSeq([k \in 1..(e - next[s]) |->
                            LET i == next[s] + k - 1 IN [q \in 1..(A.rp[i+2] - A.rp[i+1]) |-> A.rp[i+1] + q]])]
            /\ pc' = [pc EXCEPT ![t] = "start"] /\ UNCHANGED sweep
       ELSE sweep' = [sweep EXCEPT ![t] = s + 1] /\ UNCHANGED <<next, rows, pc>>
    /\ UNCHANGED <<Shared, f, cnt, pos, acc, need, got, good, tgood>>
\* begin with the next position of the rows taken
Start(t) ==
    /\ pc[t] = "start"
    /\ IF rows[t] = <<>>
       THEN pc' = [pc EXCEPT ![t] = "claim"] /\ UNCHANGED <<pos, acc, need, got, tgood, rows>>
       ELSE LET p == Head(rows[t]) IN
            /\ pos' = [pos EXCEPT ![t] = p] /\ acc' = [acc EXCEPT ![t] = A.a[p]]
            /\ need' = [need EXCEPT ![t] = plist[p].pairs] /\ got' = [got EXCEPT ![t] = <<>>]
            /\ tgood' = [tgood EXCEPT ![t] = TRUE]
            /\ rows' = [rows EXCEPT ![t] = Tail(@)]
            /\ pc' = [pc EXCEPT ![t] = "read"]
    /\ UNCHANGED <<Shared, f, cnt, next, sweep, good>>
\* read the two factors of one pair, in two separate steps
ReadL(t) ==
    /\ pc[t] = "read" /\ need[t] # {} /\ got[t] = <<>>
    /\ LET pq == CHOOSE x \in need[t] : TRUE IN
       /\ got' = [got EXCEPT ![t] = <<pq[1], f[pq[1]]>>]
       /\ tgood' = [tgood EXCEPT ![t] = @ /\ good[pq[1]]]
    /\ UNCHANGED <<Shared, f, cnt, next, pc, sweep, rows, pos, acc, need, good>>
ReadU(t) ==
    /\ pc[t] = "read" /\ need[t] # {} /\ got[t] # <<>>
    /\ LET pq == CHOOSE x \in need[t] : TRUE IN
       /\ acc' = [acc EXCEPT ![t] = RSub(@, RMul(got[t][2], f[pq[2]]))]
       /\ tgood' = [tgood EXCEPT ![t] = @ /\ good[pq[2]]]
       /\ need' = [need EXCEPT ![t] = @ \ {pq}] /\ got' = [got EXCEPT ![t] = <<>>]
    /\ UNCHANGED <<Shared, f, cnt, next, pc, sweep, rows, pos, good>>
ReadDiag(t) ==
    /\ pc[t] = "read" /\ need[t] = {}
    /\ LET d == plist[pos[t]].diag IN
       /\ acc' = [acc EXCEPT ![t] = IF d = 0 THEN @ ELSE RMul(@, RInv(f[d]))]
       /\ tgood' = [tgood EXCEPT ![t] = @ /\ (d = 0 \/ good[d])]
    /\ pc' = [pc EXCEPT ![t] = "publish"]
    /\ UNCHANGED <<Shared, f, cnt, next, sweep, rows, pos, need, got, good>>
Publish(t) ==
    /\ pc[t] = "publish"
    /\ f' = [f EXCEPT ![pos[t]] = acc[t]] /\ cnt' = [cnt EXCEPT ![pos[t]] = @ + 1]
    /\ good' = [good EXCEPT ![pos[t]] = tgood[t]]
    /\ pc' = [pc EXCEPT ![t] = "start"]
    /\ UNCHANGED <<Shared, next, sweep, rows, pos, acc, need, got, tgood>>
Update(t) == Start(t) \/ ReadL(t) \/ ReadU(t) \/ ReadDiag(t) \/ Publish(t)
INext == \E t \in Thread : Claim(t) \/ Update(t)
Terminated == \A t \in Thread : pc[t] = "claim" /\ sweep[t] = nsweeps + 1

\* ---- properties ----
Exact == Factors(A, plist)
CountsBounded == \A p \in AllPos(A) : cnt[p] <= nsweeps
CountsComplete == Terminated => \A p \in AllPos(A) : cnt[p] = nsweeps
\* values computed from good values only are the exact factors
GoodIsExact == \A p \in AllPos(A) : good[p] => RSame(f[p], Exact[p])
\* a single thread, or threads that happened to work in order, obtain the factorization
AllGoodIsFactorization == (\A p \in AllPos(A) : good[p]) => IsFactorization(A, plist, f)
SequentialExact == Terminated /\ Cardinality(Thread) = 1 /\ nsweeps >= 1 => \A p \in AllPos(A) : good[p]
Termination == <>Terminated
===============================================================================
