---------------------------- MODULE MC_AsyncRelax -----------------------------
EXTENDS AsyncRelax, Field, TLC
CONSTANTS N, Method, NSweeps, Seeds
Square == (0..(N-1)) \X (0..(N-1))
RowSeq(pat, i) == SetToSortSeq({e \in pat : e[1] = i}, LAMBDA u, v : u[2] < v[2])
AllEntries(pat) == FlattenSeq([k \in 1..N |-> RowSeq(pat, k-1)])
Mat(pat, v) == [n |-> N, bs |-> 1, rp |-> [k \in 1..(N+1) |-> Cardinality({e \in pat : e[1] < k - 1})],
                ci |-> [k \in 1..Len(AllEntries(pat)) |-> AllEntries(pat)[k][2]], a |-> v]
Hash(s, k) == ((s * 7919 + k * 10473 + s * k * 31 + k * k * s) \div 3) % P
\* every pattern with a full diagonal, or only the dense one
Pats == {{e \in Square : e[1] = e[2]} \cup o : o \in SUBSET {e \in Square : e[1] # e[2]}}
Mats == {Mat(pat, [k \in 1..Cardinality(pat) |-> Hash(s, k)]) : pat \in Pats, s \in 1..Seeds}
Good(m) == \A i \in Rows(m) : RRegular(m.a[Diag(m, i)])
Rhs(s) == [k \in 1..N |-> Hash(s + 17, k + 3)]
Up(n) == Repeat(<<"up">>, n)
Down(n) == Repeat(<<"down">>, n)
St(k, dirs, m, d, i) == [kind |-> k, dirs |-> dirs, m |-> m, d |-> d, init |-> i, x0 |-> <<>>]
StG(k, dirs, m, d, g) == [kind |-> k, dirs |-> dirs, m |-> m, d |-> d, init |-> "given", x0 |-> g]
JobOf(m, i2, s) ==
    CASE Method = "ilu" -> <<St("lower", Up(NSweeps), m, <<>>, "zero"), St("upper", Down(NSweeps), m, InvDiag(m), i2)>>
      [] Method = "sgs" -> <<St("forward", Up(NSweeps), m, InvDiag(m), "zero"), St("backward", Down(NSweeps), m, InvDiag(m), i2)>>
      [] Method = "gs" -> <<StG("relax", Up(NSweeps), m, InvDiag(m), [k \in 1..N |-> Hash(s + 5, k)])>>
      [] Method = "sgsrelax" -> <<StG("relax", Repeat(<<"up", "down">>, NSweeps), m, InvDiag(m), [k \in 1..N |-> Hash(s + 5, k)])>>
MCInit == \E m \in Mats : \E i2 \in {"zero", "rhs"} : \E s \in 1..Seeds : Good(m) /\ BeginJob(JobOf(m, i2, s), Rhs(s))
\* started from a solution
FixInit == \E m \in Mats : \E s \in 1..Seeds :
    LET xs == [k \in 1..N |-> Hash(s + 5, k)]
        rhs == MatVec(m, xs)
    IN Good(m) /\ BeginJob(<<StG("relax", Repeat(<<"up", "down">>, NSweeps), m, InvDiag(m), xs)>>, rhs)
MCSpec == MCInit /\ [][RNext]_rvars
FairSpec == MCInit /\ [][RNext]_rvars /\ WF_rvars(NextStage) /\ \A t \in Thread : WF_rvars(Claim(t) \/ StartRow(t) \/ Read(t) \/ Write(t))
===============================================================================
