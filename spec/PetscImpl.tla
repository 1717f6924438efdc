------------------------------- MODULE PetscImpl -------------------------------
(* The PETSc front end as it is built: contexts in a list, what each remembers *)
(* of its preconditioner and of the matrix that has a view of, and the calls   *)
(* PETSc makes and leaves out.  Preconditioners are counted objects.           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Nodes, MaxChanges, MaxSteps,
          Faults          \* what of the code's care is left out (empty: the code as it is)
VARIABLES mat,   \* per node: its matrix [id, nz, val, bs, ok], ok: it can be used
          optok, \* the options can be used
          pet,   \* per node, PETSc's own: [called, seen]
          ctx,   \* per node: [on, first, read: the options are, bs, prec, id, nz, infos]
          list,  \* the nodes' contexts, latest first
          objs,  \* preconditioners ever made: [node, id, nz, bs, read, prepared, freed]
          last,  \* the latest outcome: [what, node, ok, obj]
          gone,  \* nodes whose tree was destroyed
          comps, \* per node: computes that ended well
          failed, \* per node: the versions of its matrix for which a set-up failed
          nchg, nst
vars == <<mat, optok, pet, ctx, list, objs, last, gone, comps, failed, nchg, nst>>
NoCtx == [on |-> FALSE, first |-> FALSE, read |-> FALSE, bs |-> 0, prec |-> 0, id |-> 0, nz |-> 0, infos |-> 0]
Idle == [what |-> "idle", node |-> 0, ok |-> TRUE, obj |-> 0, at |-> 0]
Init == /\ mat \in [Nodes -> {[id |-> 1, nz |-> 0, val |-> 0, bs |-> b, ok |-> o] : b \in {1, 4}, o \in BOOLEAN}]
        /\ optok \in BOOLEAN
        /\ pet = [k \in Nodes |-> [called |-> FALSE, seen |-> <<>>]]
        /\ ctx = [k \in Nodes |-> NoCtx] /\ list = <<>> /\ objs = <<>> /\ last = Idle /\ gone = {}
        /\ comps = [k \in Nodes |-> 0] /\ failed = [k \in Nodes |-> {}] /\ nchg = 0 /\ nst = 0
Free(os, o) == IF o = 0 THEN os ELSE [os EXCEPT ![o].freed = @ + 1]
Ver(k) == [id |-> mat[k].id, nz |-> mat[k].nz, val |-> mat[k].val]
\* ---- the application's side ----
Change == nchg < MaxChanges /\ nchg' = nchg + 1
NewValues(k) == /\ Change /\ mat' = [mat EXCEPT ![k].val = @ + 1] /\ UNCHANGED <<optok, pet, ctx, list, objs, last, gone, comps, failed, nst>>
NewEntries(k) == /\ Change /\ mat' = [mat EXCEPT ![k].val = @ + 1, ![k].nz = @ + 1] /\ UNCHANGED <<optok, pet, ctx, list, objs, last, gone, comps, failed, nst>>
NewMatrix(k) == /\ Change /\ \E b \in {1, 4}, o \in BOOLEAN : mat' = [mat EXCEPT ![k] = [id |-> @.id + 1, nz |-> 0, val |-> 0, bs |-> b, ok |-> o]]
                /\ UNCHANGED <<optok, pet, ctx, list, objs, last, gone, comps, failed, nst>>
NewOptions == /\ Change /\ optok' = ~optok /\ UNCHANGED <<mat, pet, ctx, list, objs, last, gone, comps, failed, nst>>
Step == nst < MaxSteps /\ nst' = nst + 1 /\ nchg' = nchg
\* a multigrid smoother's PC may have been set up by PETSc before the front end is attached
PetscAlone(k) == /\ Step /\ ~ctx[k].on /\ k \notin gone /\ pet' = [pet EXCEPT ![k] = [called |-> TRUE, seen |-> <<Ver(k)>>]]
                 /\ UNCHANGED <<mat, optok, ctx, list, objs, last, gone, comps, failed>>
Attach(k) == /\ Step /\ ~ctx[k].on /\ k \notin gone
             /\ ctx' = [ctx EXCEPT ![k] = [NoCtx EXCEPT !.on = TRUE, !.bs = mat[k].bs]] /\ list' = <<k>> \o list
             /\ pet' = [pet EXCEPT ![k] = IF "attached-after" \in Faults THEN @ ELSE [called |-> FALSE, seen |-> <<>>]]
             /\ UNCHANGED <<mat, optok, objs, last, gone, comps, failed>>
\* ---- what PETSc does at a set-up: nothing when it knows the matrix as it is ----
Needed(k) == ~pet[k].called \/ pet[k].seen # <<Ver(k)>>
\* the front end's set-up function: [ok, ctx, objs]
SetUp(k) ==
    LET c0 == IF "old-block-size" \in Faults /\ ~ctx[k].first THEN ctx[k] ELSE [ctx[k] EXCEPT !.bs = mat[k].bs]
        options == c0.first \/ optok
        new == ~c0.first \/ ("kept-view" \notin Faults /\ (c0.prec = 0 \/ c0.id # mat[k].id \/ c0.nz # mat[k].nz))
        dropped == Free(objs, c0.prec)
        c1 == IF "dangling" \in Faults THEN c0 ELSE [c0 EXCEPT !.prec = 0]
        made == [node |-> k, id |-> mat[k].id, nz |-> mat[k].nz, bs |-> c0.bs, read |-> c0.read \/ ~c0.first, prepared |-> <<>>, freed |-> 0]
    IN IF ~options THEN [ok |-> FALSE, ctx |-> IF "first-early" \in Faults THEN [c0 EXCEPT !.first = TRUE] ELSE c0, objs |-> objs]
       ELSE IF new /\ ~mat[k].ok THEN [ok |-> FALSE, ctx |-> IF "first-early" \in Faults THEN [c1 EXCEPT !.first = TRUE] ELSE c1, objs |-> dropped]
       ELSE LET os == IF new THEN Append(dropped, made) ELSE objs
                p == IF new THEN Len(os) ELSE c0.prec
            IN IF p = 0 THEN [ok |-> FALSE, ctx |-> c0, objs |-> objs]      \* a call through a null pointer
               ELSE [ok |-> TRUE, ctx |-> [c0 EXCEPT !.read = @ \/ ~c0.first, !.first = TRUE, !.prec = p, !.id = mat[k].id, !.nz = mat[k].nz, !.infos = @ + 1],
                     objs |-> [os EXCEPT ![p].prepared = <<Ver(k)>>]]
Crash(k) == \* the set-up would call a preconditioner that is not there
    Needed(k) /\ ctx[k].first /\ "kept-view" \in Faults /\ ctx[k].prec = 0
Use(k, apply) ==
    /\ Step /\ ctx[k].on /\ k \notin gone
    /\ LET s == SetUp(k)
           n == Needed(k)
           c == IF n THEN s.ctx ELSE ctx[k]
           worked == ~n \/ s.ok
           r == worked /\ (~apply \/ c.prec # 0 \/ "no-check" \in Faults)
       IN /\ ctx' = [ctx EXCEPT ![k] = c] /\ objs' = IF n THEN s.objs ELSE objs
          /\ pet' = IF n THEN [pet EXCEPT ![k] = [called |-> @.called \/ s.ok, seen |-> <<Ver(k)>>]] ELSE pet
          /\ comps' = IF n /\ s.ok THEN [comps EXCEPT ![k] = @ + 1] ELSE comps
          /\ failed' = IF n /\ ~s.ok THEN [failed EXCEPT ![k] = @ \cup {Ver(k)}] ELSE failed
          /\ last' = [what |-> IF apply THEN "apply" ELSE "setup", node |-> k, ok |-> r, obj |-> IF r THEN c.prec ELSE 0, at |-> nst + 1]
    /\ UNCHANGED <<mat, optok, list, gone>>
Destroy(k) ==
    /\ Step /\ k \notin gone /\ gone' = gone \cup {k}
    /\ objs' = IF ctx[k].on THEN Free(objs, ctx[k].prec) ELSE objs
    /\ ctx' = IF ctx[k].on /\ "dangling" \notin Faults THEN [ctx EXCEPT ![k].prec = 0] ELSE ctx
    /\ last' = Idle /\ UNCHANGED <<mat, optok, pet, list, comps, failed>>
Next == \/ NewOptions
        \/ \E k \in Nodes : NewValues(k) \/ NewEntries(k) \/ NewMatrix(k) \/ PetscAlone(k) \/ Attach(k) \/ Use(k, TRUE) \/ Use(k, FALSE) \/ Destroy(k)
Spec == Init /\ [][Next]_vars
\* ---- what must hold ----
Live == {o \in DOMAIN objs : objs[o].freed = 0}
\* every preconditioner is released at most once, and those that are not are each held by their one node
OneOwner == /\ \A o \in DOMAIN objs : objs[o].freed <= 1
            /\ \A o \in Live : ctx[objs[o].node].prec = o /\ objs[o].node \notin gone
NoDangling == \A k \in Nodes : ctx[k].prec # 0 /\ k \notin gone => ctx[k].prec \in Live /\ objs[ctx[k].prec].node = k
\* one context per node, all of them in the list
Listed == /\ {list[q] : q \in DOMAIN list} = {k \in Nodes : ctx[k].on} /\ Len(list) = Cardinality({k \in Nodes : ctx[k].on})
\* what was applied is a view of the matrix as it is now, of its block size, prepared from its values as they are now
UsedCurrent == [][last' # last /\ last'.what = "apply" /\ last'.ok => 
                  /\ last'.obj \in DOMAIN objs' /\ objs'[last'.obj].freed = 0
                  /\ LET o == objs'[last'.obj] IN o.id = mat[last'.node].id /\ o.nz = mat[last'.node].nz /\ o.bs = mat[last'.node].bs /\ o.read /\ o.prepared = <<Ver(last'.node)>>]_vars
\* and a node that can be set up works (PETSc does not retry what failed for the same matrix)
Works == [][LET k == last'.node IN
            last' # last /\ last'.what # "idle" /\ (optok \/ comps[k] > 0) /\ mat[k].ok /\ Ver(k) \notin failed[k] => last'.ok]_vars
Views == \A o \in Live : objs[o].prepared # <<>> => objs[o].prepared[1].id = objs[o].id /\ objs[o].prepared[1].nz = objs[o].nz
\* a node that cannot be set up is never used
RefusedStays == \A k \in Nodes : ctx[k].prec # 0 /\ k \notin gone /\ ctx[k].prec \in Live => comps[k] > 0
Counted == \A k \in Nodes : ctx[k].infos = comps[k]
===============================================================================
