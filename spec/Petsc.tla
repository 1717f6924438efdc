--------------------------------- MODULE Petsc ---------------------------------
(* What the PETSc front end means: solver trees, run-time options, and when a  *)
(* node's preconditioner is made and computed.                                 *)
EXTENDS Names, Integers, Sequences, FiniteSets
\* ---- trees: [kind, id, blocks, sub], leaves of kind "shell" carry a number ----
Local == {"bjacobi", "asm"}
RECURSIVE Shells(_), Malformed(_, _)
\* the nodes meant for the library
Shells(t) == IF t.kind = "shell" THEN {t.id}
             ELSE IF t.kind \in Local \cup {"ksp", "mg", "gamg"} THEN UNION {Shells(t.sub[q]) : q \in DOMAIN t.sub}
             ELSE {}
\* a subdomain solver with several subdomains in one process, or a shell that is given a distributed matrix
Malformed(t, distributed) ==
    IF t.kind = "shell" THEN t.id \in distributed
    ELSE IF t.kind \in Local /\ t.blocks # 1 THEN TRUE
    ELSE IF t.kind \in Local \cup {"ksp", "mg", "gamg"} THEN \E q \in DOMAIN t.sub : Malformed(t.sub[q], distributed)
    ELSE FALSE
\* ---- options: [type, sweeps, chunk, scale, finit, ainit, info] as given; numbers as [set, ok, v], switches as "unset", "yes", "no" or "bad" ----
IluNames == {"ilu0", "seqilu0", "sfilu0", "sapilu0", "async_level_ilu0"}
Iterated == {"ilu0", "sapilu0", "async_level_ilu0"}          \* their factorization is iterated
Plain == {"jacobi", "level_sgs", "none"}                     \* nothing of theirs is iterated
SequentialSymbol == -1
Known(op, extra) == op.type \in DOMAIN SolverNames \cup extra
Complete(op) == op.type \notin Plain =>
                /\ op.sweeps.set => op.sweeps.ok /\ Len(op.sweeps.v) = 2
                /\ op.chunk.set /\ op.chunk.ok
                /\ op.ainit \in DOMAIN ApplyInitNames
                /\ op.type \in Iterated => op.scale \in {"yes", "no"} /\ op.finit # ""
Sweeps(op) == IF op.type \in Plain \/ ~op.sweeps.set THEN <<1, 1>> ELSE op.sweeps.v
\* the method that is threaded where the named one is, except where the sequential symbol asks for it not to be
Sequenced(type, b, a) ==
    IF ~b /\ ~a THEN type
    ELSE IF type \notin IluNames THEN Refused
    ELSE IF type = "async_level_ilu0" THEN (IF a /\ b THEN "seqilu0" ELSE Refused)
    ELSE CHOOSE m \in IluNames \ {"async_level_ilu0"} : /\ ThreadedFactor(m) = (ThreadedFactor(type) /\ ~b)
                                                        /\ ThreadedApply(m) = (ThreadedApply(type) /\ ~a)
Supports(m, extra, bs) == m \in extra \/ SupportedBy(m, bs, FALSE)
\* the settings for a node whose matrix has blocks of size bs, or <<>> when the options are refused
Configure(op, extra, bs) ==
    IF ~(Known(op, extra) /\ Complete(op) /\ op.info # "bad") THEN <<>>
    ELSE LET sw == Sweeps(op)
             m == Sequenced(op.type, sw[1] = SequentialSymbol, sw[2] = SequentialSymbol)
         IN IF m = Refused THEN <<>>
            ELSE IF ~Supports(m, extra, bs) THEN <<>>
            ELSE IF m \in Iterated /\ op.finit \notin DOMAIN FactInitNames THEN <<>>
            ELSE <<[type |-> op.type, method |-> m, nb |-> sw[1], na |-> sw[2], bs |-> bs,
                    chunk |-> IF op.type \in Plain THEN 1 ELSE op.chunk.v,
                    scaling |-> op.type \in Iterated /\ op.scale = "yes",
                    fi |-> IF op.type \in Iterated THEN op.finit ELSE "init_none",
                    ai |-> IF op.type \in Plain THEN "init_zero" ELSE op.ainit,
                    info |-> op.info = "yes"]>>
\* made settings s, as observed, carry the intended ones c in everything the method depends on
Carries(s, c) ==
    /\ s.method = c.method /\ s.bs = c.bs /\ s.colmajor /\ s.info = c.info
    /\ c.type \notin Plain => s.chunk = c.chunk /\ s.ai = c.ai
    /\ c.type \in IluNames => s.scaling = c.scaling
    /\ c.method \in IluNames => IF ThreadedFactor(c.method) THEN s.nb = c.nb ELSE s.nb >= 1
    /\ c.type \notin Plain \cup {"async_level_ilu0"} => IF ThreadedApply(c.method) THEN s.na = c.na ELSE s.na >= 1
    /\ c.method \in Iterated => s.fi = c.fi
\* ---- nodes ----
\* st, a version [id, nz, val] of the node's matrix, against the version of the latest set-up (<<>> when there was none)
Stale(st, seen) == seen = <<>> \/ seen # <<st>>
\* a preconditioner has a view of one matrix with one pattern
MakeNeeded(st, seen, obj) == obj = 0 \/ seen = <<>> \/ seen[1].id # st.id \/ seen[1].nz # st.nz
===============================================================================
