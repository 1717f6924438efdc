------------------------------- MODULE MC_Levels ------------------------------
EXTENDS Levels, Field, TLC
CONSTANTS N, Method, Seeds
VARIABLE rhs0
Square == (0..(N-1)) \X (0..(N-1))
RowSeq(pat, i) == SetToSortSeq({e \in pat : e[1] = i}, LAMBDA u, v : u[2] < v[2])
AllEntries(pat) == FlattenSeq([k \in 1..N |-> RowSeq(pat, k-1)])
Hash(s, k) == ((s * 7919 + k * 10473 + s * k * 31 + k * k * s) \div 3) % P
Mat(pat, s) == [n |-> N, bs |-> 1, rp |-> [k \in 1..(N+1) |-> Cardinality({e \in pat : e[1] < k - 1})],
                ci |-> [k \in 1..Len(AllEntries(pat)) |-> AllEntries(pat)[k][2]], a |-> [k \in 1..Cardinality(pat) |-> Hash(s, k)]]
\* every symmetric pattern with a full diagonal
Pats == {{e \in Square : e[1] = e[2]} \cup o \cup {<<e[2], e[1]>> : e \in o} : o \in SUBSET {e \in Square : e[1] < e[2]}}
Good(a) == \A i \in Rows(a) : RRegular(a.a[Diag(a, i)])
V(s) == [k \in 1..N |-> Hash(s, k)]
St(k, dirs, a, d, z) == [kind |-> k, dirs |-> dirs, m |-> a, d |-> d, x0 |-> z]
JobOf(a, s) == CASE Method = "sgs" -> <<St("forward", <<"up">>, a, InvDiag(a), V(s+3)), St("backward", <<"down">>, a, InvDiag(a), V(s+5))>>
                 [] Method = "ilu" -> <<St("lower", <<"up">>, a, <<>>, V(s+3)), St("upper", <<"down">>, a, InvDiag(a), V(s+5))>>
                 [] Method = "relax" -> <<St("relax", <<"up", "down", "up", "down">>, a, InvDiag(a), V(s+3))>>
MCInit == \E pat \in Pats : \E s \in 1..Seeds : Good(Mat(pat, s)) /\ LevelInit(Mat(pat, s), JobOf(Mat(pat, s), s), V(s+11)) /\ rhs0 = V(s+11)
MCNext == LNext /\ UNCHANGED rhs0
mcvars == <<lvars, rhs0>>
MCSpec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(MCNext)
Exact == Finished => VecSame(x, SeqResult(job, 1, rhs0))
Termination == <>Finished
===============================================================================
