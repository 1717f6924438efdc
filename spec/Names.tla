--------------------------------- MODULE Names ---------------------------------
(* The user's names and settings and what they select.                         *)
\* the documented solver names and the method each stands for
SolverNames == [none |-> "NO_PREC", jacobi |-> "JACOBI", gs |-> "GS", sgs |-> "SGS", ilu0 |-> "ILU0", seqilu0 |-> "SEQILU0",
                sfilu0 |-> "SFILU0", sapilu0 |-> "SAPILU0", cscbgs |-> "CSC_BGS", level_sgs |-> "LEVEL_SGS", async_level_ilu0 |-> "ASYNC_LEVEL_ILU0"]
FactInitNames == [init_zero |-> "ZERO", init_original |-> "ORIGINAL", init_sgs |-> "SGS", init_none |-> "NONE"]
ApplyInitNames == [init_zero |-> "ZERO", init_jacobi |-> "JACOBI", init_none |-> "NONE"]
Refused == "invalid argument"
Choose(table, s) == IF s \in DOMAIN table THEN table[s] ELSE Refused
\* combinations of method, block size and layout that exist
SupportedBy(name, bs, rowmajor) == /\ name \in DOMAIN SolverNames
                                   /\ bs = 1 \/ (bs \in {4, 5} /\ name # "cscbgs" /\ (bs = 5 => ~rowmajor))
\* which parts of an incomplete factorization use several threads
ThreadedFactor(name) == name \in {"ilu0", "sapilu0", "async_level_ilu0"}
ThreadedApply(name) == name \notin {"seqilu0", "sapilu0"}
===============================================================================
