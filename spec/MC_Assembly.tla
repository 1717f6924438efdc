------------------------------ MODULE MC_Assembly ------------------------------
(* Every sequence of Depth calls on every pattern with a full diagonal: the     *)
(* scanning implementation and the definition by entries agree; then every      *)
(* interleaving of concurrent updates gives their sum.                          *)
EXTENDS AssemblyImpl, Field, TLC
CONSTANTS N, Depth, Thread, Atomic
VARIABLES m, im, depth,            \* by definition, by implementation
          todo, reg, target        \* concurrent phase: pending updates <<position, value>> per thread, its register, what must come out
vars == <<m, im, depth, todo, reg, target>>
MCUndef == -1
Square == (0..(N-1)) \X (0..(N-1))
RowSeq(pat, i) == SetToSortSeq({e \in pat : e[1] = i}, LAMBDA a, b : a[2] < b[2])
AllEntries(pat) == FlattenSeq([k \in 1..N |-> RowSeq(pat, k-1)])
Mat(pat) == Blank(N, 1, [k \in 1..(N+1) |-> Cardinality({e \in pat : e[1] < k - 1})], [k \in 1..Len(AllEntries(pat)) |-> AllEntries(pat)[k][2]])
Diagonal == {<<i, i>> : i \in 0..(N-1)}
Init == /\ \E off \in SUBSET (Square \ Diagonal) : m = Mat(off \cup Diagonal)
        /\ im = m /\ depth = 0 /\ todo = [t \in Thread |-> <<>>] /\ reg = [t \in Thread |-> <<>>] /\ target = <<>>
Buf(s, len) == [k \in 1..len |-> (s * k + k * k + s) % P]
Call(a, b) == m' = a /\ im' = b /\ depth' = depth + 1 /\ UNCHANGED <<todo, reg, target>>
Calls == /\ depth < Depth /\ target = <<>>
         /\ \/ Call(Zeroed(m), [im EXCEPT !.a = [p \in DOMAIN @ |-> 0]])
            \/ Call(DiagZeroed(m), IDiagZero(im))
            \/ Call(Scaled2(m, LAMBDA v : GMul(2, v)), [im EXCEPT !.a = [p \in DOMAIN @ |-> IF @[p] = MCUndef THEN MCUndef ELSE GMul(2, @[p])]])
            \/ \E i, j \in 0..(N-1), h, w \in 1..N, s \in 1..2 :
                 /\ i + h <= N /\ j + w <= N /\ Covered(m, i, j, h, w)
                 /\ \/ Call(Submitted(m, i, j, h, w, Buf(s, h*w)), ISubmit(im, i, j, h, w, Buf(s, h*w)))
                    \/ Call(Updated(m, i, j, h, w, Buf(s, h*w)), IUpdate(im, i, j, h, w, Buf(s, h*w)))
                    \/ i = j /\ h = w /\ Call(Updated(m, i, j, h, w, Buf(s, h*w)), IUpdateDiag(im, i, h, Buf(s, h*w)))
Agree == m = im
\* concurrent updates of single entries; without atomic updates they can be lost
Fork == /\ depth = Depth /\ target = <<>> /\ Nnz(m) > 0 /\ \A p \in AllPos(m) : m.a[p] # MCUndef
        /\ \E f \in [Thread -> AllPos(m) \X AllPos(m)] :
             /\ todo' = [t \in Thread |-> <<<<f[t][1], 1>>, <<f[t][2], 2>>>>]
             /\ target' = [p \in AllPos(m) |-> (m.a[p] + Cardinality({t \in Thread : f[t][1] = p}) + 2 * Cardinality({t \in Thread : f[t][2] = p})) % P]
        /\ UNCHANGED <<m, im, depth, reg>>
ReadOld(t) == /\ target # <<>> /\ todo[t] # <<>> /\ reg[t] = <<>>
              /\ reg' = [reg EXCEPT ![t] = <<m.a[todo[t][1][1]]>>] /\ UNCHANGED <<m, im, depth, todo, target>>
Store(t) == /\ target # <<>> /\ todo[t] # <<>> /\ reg[t] # <<>>
            /\ LET p == todo[t][1][1] IN
               IF ~Atomic \/ m.a[p] = reg[t][1]
               THEN /\ m' = [m EXCEPT !.a[p] = GAdd(reg[t][1], todo[t][1][2])] /\ todo' = [todo EXCEPT ![t] = Tail(@)]
                    /\ reg' = [reg EXCEPT ![t] = <<>>]
               ELSE reg' = [reg EXCEPT ![t] = <<m.a[p]>>] /\ UNCHANGED <<m, todo>>
            /\ im' = m' /\ UNCHANGED <<depth, target>>
Next == Calls \/ Fork \/ \E t \in Thread : ReadOld(t) \/ Store(t)
NothingLost == target # <<>> /\ (\A t \in Thread : todo[t] = <<>>) => \A p \in AllPos(m) : m.a[p] = target[p]
================================================================================
