-------------------------------- MODULE Factory -------------------------------
(* What the tables of Names must satisfy.                                      *)
EXTENDS Solver, Names
\* each name is a method of its own, each kind of initialization too
OneToOne(t) == \A a, b \in DOMAIN t : t[a] = t[b] => a = b
ASSUME OneToOne(SolverNames) /\ OneToOne(FactInitNames) /\ OneToOne(ApplyInitNames)
ASSUME DOMAIN SolverNames = Methods
ASSUME {n \in Methods : ThreadedFactor(n)} \subseteq Ilu
\* the three partly or wholly sequential variants differ from each other and from ilu0 in where they use threads
ASSUME \A a, b \in Ilu \ {"async_level_ilu0"} : a # b => <<ThreadedFactor(a), ThreadedApply(a)>> # <<ThreadedFactor(b), ThreadedApply(b)>>
===============================================================================
