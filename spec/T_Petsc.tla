-------------------------------- MODULE T_Petsc -------------------------------
(* Sessions with the PETSc front end observed on the real code.  State: the    *)
(* options, the leaves' matrices with their versions, what each node was       *)
(* configured as, its preconditioner and what that last prepared.              *)
EXTENDS Petsc, Factory, FloatRing, Trace
VARIABLES c0,      \* of the case: user (the user's factory), trees, extra names, distributed leaves
          opt,     \* options
          cur, st, \* per leaf: matrix and its version
          node,    \* per leaf: [on, cfg, obj, seen, prep, inf, tried]
          made,    \* number of preconditioners made so far
          ncomp    \* number of computes
 pvars == <<c0, opt, cur, st, node, made, ncomp>>
Bare == [on |-> FALSE, cfg |-> <<>>, obj |-> 0, seen |-> <<>>, prep |-> <<>>, inf |-> <<>>, tried |-> <<>>]
Gone == [Bare EXCEPT !.obj = -1]
Init == l = 1 /\ c0 = <<>> /\ opt = <<>> /\ cur = <<>> /\ st = <<>> /\ node = <<>> /\ made = 0 /\ ncomp = 0
Start ==
    /\ More /\ Line.op = "start"
    /\ IF Line.crash # 0 THEN Reject("a call crashed or did not return") /\ l' = After(l) /\ UNCHANGED pvars
       ELSE /\ c0' = [user |-> Line.user, trees |-> Line.trees, extra |-> IF Line.user THEN {"of_the_user"} ELSE {}, distributed |-> {Line.distributed[q] : q \in DOMAIN Line.distributed}]
            /\ cur' = Line.ms /\ st' = [k \in DOMAIN Line.ms |-> [id |-> 0, nz |-> 0, val |-> 0]]
            /\ node' = [k \in DOMAIN Line.ms |-> Bare] /\ opt' = <<>> /\ made' = 0 /\ ncomp' = 0 /\ l' = l + 1
Leaves == DOMAIN node
Opt == /\ More /\ Line.op = "opt" /\ opt' = Line.opt /\ l' = l + 1 /\ UNCHANGED <<c0, cur, st, node, made, ncomp>>
Val == /\ More /\ Line.op = "val" /\ cur' = [cur EXCEPT ![Line.k].a = Line.a] /\ st' = [st EXCEPT ![Line.k].val = @ + 1]
       /\ l' = l + 1 /\ UNCHANGED <<c0, opt, node, made, ncomp>>
\* another matrix, or new entries in the same one
Mat == /\ More /\ Line.op \in {"mat", "grow"} /\ cur' = [cur EXCEPT ![Line.k] = Line.m]
       /\ st' = [st EXCEPT ![Line.k] = IF Line.op = "mat" THEN [id |-> @.id + 1, nz |-> 0, val |-> 0] ELSE [@ EXCEPT !.nz = @ + 1, !.val = @ + 1]]
       /\ l' = l + 1 /\ UNCHANGED <<c0, opt, node, made, ncomp>>
\* ---- events: <<what, object>>, what = 1 made 2 computed 3 applied 4 relaxed 5 deleted 6 the factory was deleted ----
Ev(e) == [q \in 1..(Len(e.ev) \div 2) |-> <<e.ev[2*q - 1], e.ev[2*q]>>]
MadeRec(e, id) == e.made[id - made]            \* the settings of the object with that number, in order of creation
MadeIn(e) == {id \in (made + 1)..(made + Len(e.made)) : TRUE}
\* objects that belong to leaf k at some time of the step
ObjsOf(e, k) == {node[k].obj} \cup {id \in MadeIn(e) : MadeRec(e, id).leaf = k}
\* what happened to leaf k, without deletions
Own(e, k) == SelectSeq(Ev(e), LAMBDA x : x[2] \in ObjsOf(e, k) /\ x[2] # 0 /\ x[1] # 5)
Deleted(e, k) == SelectSeq(Ev(e), LAMBDA x : x[2] \in ObjsOf(e, k) /\ x[2] # 0 /\ x[1] = 5)
\* the settings a set-up of leaf k leads to, <<>> when it must be refused
Config(k) == LET c == IF node[k].cfg # <<>> THEN node[k].cfg ELSE Configure(opt, c0.extra, cur[k].bs)
             IN IF c = <<>> THEN <<>>
                ELSE IF ~HasDiag(cur[k]) THEN <<>>
                ELSE IF ~Supports(c[1].method, c0.extra, cur[k].bs) THEN <<>> ELSE <<[c[1] EXCEPT !.bs = cur[k].bs]>>
Work(k) == node[k].on /\ Stale(st[k], node[k].seen)
Fresh(k) == MakeNeeded(st[k], node[k].seen, node[k].obj)
Refuses(k) == Work(k) /\ Config(k) = <<>> /\ Fresh(k)
\* method-level options of the preconditioner of a node
Opts(c) == [method |-> IF c.method \in DOMAIN SolverNames THEN c.method ELSE "none", scaling |-> c.scaling,
            napply |-> IF c.na = SequentialSymbol THEN 1 ELSE c.na, ainit |-> IF c.ai = "init_zero" THEN "zero" ELSE IF c.ai = "init_jacobi" THEN "jacobi" ELSE "none"]
NewObj(e, k) == IF ~c0.user THEN 1 ELSE LET s == {id \in MadeIn(e) : MadeRec(e, id).leaf = k} IN IF s = {} THEN 0 ELSE CHOOSE id \in s : TRUE
\* node k after its set-up, which made object obj if it made one, and computed with number serial
AfterSetUp(k, obj, serial) ==
    IF ~Work(k) THEN node[k]
    ELSE LET c == Config(k)
         IN [node[k] EXCEPT !.cfg = c, !.seen = <<st[k]>>, !.obj = IF Fresh(k) THEN obj ELSE @, !.prep = <<Prep(Opts(c[1]), cur[k])>>,
                            !.inf = IF c[1].info THEN Append(@, serial) ELSE @]
\* set-up of leaf k: first failure
SetUpWhy(e, k, uses) ==
    LET own == Own(e, k)
        want == (IF Work(k) /\ Fresh(k) THEN <<1>> ELSE <<>>) \o (IF Work(k) THEN <<2>> ELSE <<>>)
        n == Len(want)
        kinds == [q \in DOMAIN own |-> own[q][1]]
        o2 == IF Work(k) /\ Fresh(k) THEN NewObj(e, k) ELSE node[k].obj
    IN IF ~c0.user THEN ""
       ELSE IF Len(kinds) < n \/ SubSeq(kinds, 1, n) # want
            THEN (IF \E q \in DOMAIN kinds : q <= n /\ kinds[q] > 2 THEN "a preconditioner was used before it was set up for the matrix as it is"
                  ELSE "a set-up did not make and compute exactly one preconditioner when, and only when, it had to")
       ELSE IF \E q \in (n+1)..Len(kinds) : kinds[q] \notin uses THEN "a preconditioner was made, computed or used when it need not be"
       ELSE FirstFailure(<<
            <<\A q \in DOMAIN own : own[q][2] = o2, "a preconditioner other than the node's own was used">>,
            <<Work(k) /\ Fresh(k) => Carries(MadeRec(e, o2), Config(k)[1]), "a preconditioner was made with other settings than the options mean">>,
            <<[q \in DOMAIN Deleted(e, k) |-> Deleted(e, k)[q][2]] = (IF Work(k) /\ Fresh(k) /\ node[k].obj # 0 THEN <<node[k].obj>> ELSE <<>>), "a preconditioner was not released exactly once">>>>)
NoOthers(e, U) == \A q \in DOMAIN Ev(e) : \E k \in U : Ev(e)[q][2] \in ObjsOf(e, k) \ {0}
\* ---- what is visible of the nodes after every step ----
Attached(nd) == {k \in DOMAIN nd : nd[k].on}
MethodOf(nd, k) == Opts(nd[k].cfg[1]).method
\* of the wall-clock and the processor time, which changed
Timers(e, k, what) == LET f == (e.tm[k] \div (IF what = "factor" THEN 9 ELSE 1)) % 9 IN <<f \div 3 # 0, f % 3 # 0>>
FirstBad(S) == IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
StateWhy(e, nd, ls) ==
    LET A == {k \in Attached(nd) : nd[k].obj # -1}
        all == {k \in DOMAIN nd : nd[k].on}
        moved(k) == c0.user => /\ LET b == \E q \in DOMAIN Own(e, k) : Own(e, k)[q][1] = 2 IN Timers(e, k, "factor") = <<b, b>>
                               /\ LET b == \E q \in DOMAIN Own(e, k) : Own(e, k)[q][1] \in {3, 4} IN Timers(e, k, "apply") = <<b, b>>
    IN FirstFailure(<<
        <<ls => e.size = Cardinality(all) /\ e.chain = e.size, "the list does not hold one entry per node">>,
        <<ls => \A k \in A : e.pos[k] \in 1..e.size /\ \A j \in A \ {k} : e.pos[j] # e.pos[k], "a node has no entry of its own in the list">>,
        <<\A k \in DOMAIN nd \ all : e.pos[k] \in {0, -1} /\ e.obj[k] \in {0, -1}, "a node that is not meant for the library was attached to it">>,
        <<ls => \A k \in A : e.obj[k] = nd[k].obj, "a node does not hold its preconditioner">>,
        <<ls => \A k \in A : nd[k].cfg # <<>> => e.names[k] = "Blasted-" \o nd[k].cfg[1].type, "a node does not carry the name of its method">>,
        <<ls => \A k \in A : nd[k].cfg # <<>> => (e.rich[k] = 1) = RelaxAvailable(MethodOf(nd, k)), "the relaxation form is offered where there is none, or the reverse">>,
        <<ls => \A k \in A : nd[k].cfg # <<>> /\ nd[k].cfg[1].info => Len(e.inf[k]) = Len(nd[k].inf) /\ (c0.user => e.inf[k] = nd[k].inf), "the diagnostics are not those of the set-ups">>,
        <<ls => \A k \in A : nd[k].cfg # <<>> /\ ~nd[k].cfg[1].info => e.ninf[k] = -1, "diagnostics were recorded without being asked for">>,
        <<ls => \A k \in A : moved(k), "times were not accumulated at the node that did the work, or only there">>>>)
Same(x, y) == (\E k \in DOMAIN y : ~BFinite(y[k])) \/ VecSame(x, y)
Failed(e) == e.code \in {1, 2, 3, 6}
Crashed(e) == e.code \notin {0, 1, 2, 3, 6}
Conclude(why, nd) == IF why # "" THEN Reject(why) /\ l' = After(l) /\ UNCHANGED pvars
                     ELSE /\ l' = l + 1 /\ node' = nd /\ made' = made + Len(Line.made)
                          /\ ncomp' = ncomp + Cardinality({q \in DOMAIN Ev(Line) : Ev(Line)[q][1] = 2})
                          /\ UNCHANGED <<c0, opt, cur, st>>
\* refused: nothing was made; an outdated preconditioner may have been given up already
RefusedWhy(e, U) == FirstFailure(<<
    <<Failed(e), "a request that is incomplete, unknown or unsupported was not refused">>,
    <<\A q \in DOMAIN Ev(e) : Ev(e)[q][1] = 5 /\ \E k \in U : Ev(e)[q][2] = node[k].obj, "a refused request made or used a preconditioner">>>>)
GivenUp(e, k) == IF c0.user THEN (\E q \in DOMAIN Ev(e) : Ev(e)[q] = <<5, node[k].obj>>) ELSE e.obj[k] = 0
AfterRefusal(e, k) == IF node[k].obj > 0 /\ GivenUp(e, k) THEN [node[k] EXCEPT !.obj = 0] ELSE node[k]
Attach ==
    /\ More /\ Line.op = "stack"
    /\ LET e == Line
           t == c0.trees[e.t]
           nd == [k \in Leaves |-> IF k \in Shells(t) THEN [node[k] EXCEPT !.on = TRUE] ELSE node[k]]
       IN IF Crashed(e) THEN Conclude("attaching to a solver tree crashed", node)
          ELSE IF Malformed(t, c0.distributed) THEN Conclude(IF Failed(e) /\ e.ev = <<>> THEN "" ELSE "a tree of an unsupported shape was not refused", node)
          ELSE Conclude(FirstFailure(<<<<e.code = 0, "attaching to a proper solver tree failed">>,
                                       <<Ev(e) = <<>>, "attaching made or used a preconditioner">>,
                                       <<StateWhy(e, nd, TRUE) = "", StateWhy(e, nd, TRUE)>>,
                                       <<\A k \in Shells(t) : e.nbs[k] = cur[k].bs, "a node did not get its matrix's block size">>>>), nd)
\* the number that the compute of leaf k in this step carried
Serial(e, k) == LET o2 == IF Fresh(k) THEN NewObj(e, k) ELSE node[k].obj
                    cs == SelectSeq(Ev(e), LAMBDA x : x[1] = 2)
                    s == {q \in DOMAIN cs : cs[q][2] = o2}
                IN ncomp + (IF s = {} THEN 0 ELSE CHOOSE q \in s : TRUE)
AfterUse(e, U) == [k \in Leaves |-> IF k \in U /\ node[k].on THEN AfterSetUp(k, NewObj(e, k), Serial(e, k)) ELSE node[k]]
SetUp ==
    /\ More /\ Line.op = "setup"
    /\ LET e == Line
           k == e.k
       IN IF Crashed(e) THEN Conclude("a set-up crashed", node)
          ELSE IF Refuses(k)       \* PETSc itself does not ask again for what has failed before
          THEN Conclude(IF e.code = 0 /\ Ev(e) = <<>> /\ node[k].tried = <<st[k]>> THEN "" ELSE RefusedWhy(e, {k}), [node EXCEPT ![k] = [AfterRefusal(e, k) EXCEPT !.tried = <<st[k]>>]])
          ELSE LET nd == AfterUse(e, {k})
                   why == FirstFailure(<<<<e.code = 0, "a proper set-up failed">>, <<NoOthers(e, {k}), "a set-up touched another node's preconditioner">>>>)
               IN Conclude(IF why # "" THEN why ELSE IF SetUpWhy(e, k, {}) # "" THEN SetUpWhy(e, k, {}) ELSE StateWhy(e, nd, TRUE), nd)
\* ILU factors cannot be applied from an unusable initial guess
Unusable(o) == o.method \in Ilu \ {"async_level_ilu0"} /\ o.ainit = "none"
Use ==
    /\ More /\ Line.op \in {"app", "rel"}
    /\ LET e == Line
           k == e.k
       IN IF Crashed(e) THEN Conclude("an application crashed", node)
          ELSE IF Refuses(k) THEN Conclude(RefusedWhy(e, {k}), [node EXCEPT ![k] = AfterRefusal(e, k)])
          ELSE LET nd == AfterUse(e, {k})
                   o == Opts(nd[k].cfg[1])
                   no == IF e.op = "rel" THEN ~RelaxAvailable(o.method) ELSE Unusable(o)
                   x0 == IF e.op = "rel" /\ e.gz = 1 THEN Zeros(cur[k]) ELSE e.z0
                   t == [ctol |-> FALSE, maxits |-> IF e.op = "rel" THEN e.its ELSE 0, atol |-> F0, rtol |-> F0, dtol |-> F0]
                   expected == IF e.op = "app" THEN ApplyOf(o, nd[k].prep[1], cur[k], e.r, e.z0) ELSE RelaxOf(o, nd[k].prep[1], cur[k], e.r, x0, t)
                   own == Own(e, k)
                   why == FirstFailure(<<
                     <<e.code = 0, "an application failed">>,
                     <<e.rsame = 1, "an application changed the right-hand side">>,
                     <<NoOthers(e, {k}), "an application touched another node's preconditioner">>>>)
                   why2 == IF why # "" THEN why
                           ELSE IF SetUpWhy(e, k, {3, 4}) # "" THEN SetUpWhy(e, k, {3, 4})
                           ELSE FirstFailure(<<
                             <<c0.user => Cardinality({q \in DOMAIN own : own[q][1] > 2}) = 1 /\ own[Len(own)][1] = (IF e.op = "app" THEN 3 ELSE 4), "the node's preconditioner was not applied exactly once, in the form asked for">>,
                             <<e.op = "rel" => e.outits = e.its /\ e.why = 1, "the relaxation does not report the steps it took">>>>)
               IN IF no THEN (IF Failed(e) /\ Ev(e) = <<>> THEN Conclude("", node) ELSE Conclude("an application that is not available was not refused", node))
                  ELSE Conclude(IF why2 # "" THEN why2
                                ELSE IF ~Same(e.z, expected) THEN "the result is not that of the node's preconditioner on the matrix as it was set up"
                                ELSE StateWhy(e, nd, TRUE), nd)
RECURSIVE Multilevel(_)
Multilevel(t) == IF t.kind \in {"mg", "gamg"} THEN TRUE
                 ELSE IF t.kind \in Local \cup {"ksp"} THEN \E q \in DOMAIN t.sub : Multilevel(t.sub[q]) ELSE FALSE
\* a whole solve with a tree's outer solver: every node is used, but on several levels those only for which something is left to correct
Solve ==
    /\ More /\ Line.op = "solve"
    /\ LET e == Line
           T == {k \in Shells(c0.trees[e.t]) : node[k].on}
           U == IF Multilevel(c0.trees[e.t]) THEN {k \in T : Own(e, k) # <<>>} ELSE T
           nd == AfterUse(e, U)
           bad == {k \in U : SetUpWhy(e, k, {3, 4}) # ""}
           root == c0.trees[e.t].kind = "shell"
       IN IF Crashed(e) THEN Conclude("a solve crashed", node)
          ELSE IF (\E k \in T : Refuses(k) \/ (Config(k) # <<>> /\ Unusable(Opts(Config(k)[1])))) /\ (Failed(e) \/ ~Multilevel(c0.trees[e.t]) \/ \E k \in U : Refuses(k))
               THEN Conclude(IF Failed(e) /\ Ev(e) = <<>> THEN "" ELSE "a solve whose set-up must be refused was not refused", node)
          ELSE LET why == FirstFailure(<<<<e.code = 0, "a proper solve failed">>, <<NoOthers(e, U), "a solve touched a preconditioner outside its tree">>>>)
                   why2 == IF why # "" THEN why ELSE IF bad # {} THEN SetUpWhy(e, FirstBad(bad), {3, 4})
                           ELSE FirstFailure(<<<<c0.user /\ ~Multilevel(c0.trees[e.t]) => \A k \in U : \E q \in DOMAIN Own(e, k) : Own(e, k)[q][1] > 2, "a node's preconditioner was not used by a solve">>,
                                               <<StateWhy(e, nd, TRUE) = "", StateWhy(e, nd, TRUE)>>>>)
                   k0 == CHOOSE k \in U : TRUE
                   o == Opts(nd[k0].cfg[1])
                   t == [ctol |-> FALSE, maxits |-> 2, atol |-> F0, rtol |-> F0, dtol |-> F0]
               IN Conclude(IF why2 # "" THEN why2
                           ELSE IF root /\ RelaxAvailable(o.method) /\ ~Same(e.z, RelaxOf(o, nd[k0].prep[1], cur[k0], e.b, Zeros(cur[k0]), t))
                           THEN "Richardson's method did not use the relaxation form" ELSE "", nd)
RECURSIVE SumOf(_, _, _)
SumOf(v, first, n) == IF n = 0 THEN 0 ELSE SumOf(v, first, n - 1) + v[((4*(n-1) + first - 1) % Len(v)) + 1]
\* each entry of the list was given the next four of the values v, cyclically, as its times
Times ==
    /\ More /\ Line.op = "times"
    /\ LET e == Line
           n == Cardinality({k \in Leaves : node[k].on})
       IN Conclude(IF e.total = [f \in 1..4 |-> SumOf(e.v, f, n)] THEN "" ELSE "the total times are not the sums over all nodes", node)
TreeGone ==
    /\ More /\ Line.op = "kspdel"
    /\ LET e == Line
           U == Shells(c0.trees[e.t])
           dels == [q \in DOMAIN Ev(e) |-> Ev(e)[q][2]]
           owned == {node[k].obj : k \in {j \in U : node[j].on}} \ {0}
       IN Conclude(IF Crashed(e) \/ e.code # 0 THEN "destroying a solver tree failed"
                   ELSE IF c0.user /\ ~(/\ \A q \in DOMAIN Ev(e) : Ev(e)[q][1] = 5
                                        /\ Len(dels) = Cardinality(owned) /\ {dels[q] : q \in DOMAIN dels} = owned) THEN "destroying a solver tree did not release each of its preconditioners exactly once"
                   ELSE IF e.size # Cardinality(Attached(node)) THEN "destroying a solver tree changed the list" ELSE "",
                   [k \in Leaves |-> IF k \in U THEN [Gone EXCEPT !.on = node[k].on] ELSE node[k]])
ListGone ==
    /\ More /\ Line.op = "listdel"
    /\ LET e == Line IN Conclude(IF Crashed(e) \/ e.code # 0 THEN "destroying the list failed" ELSE IF Ev(e) # <<>> THEN "destroying the list touched the preconditioners or the user's factory" ELSE "", node)
End == /\ More /\ Line.op = "end" /\ Judge(IF Line.left = 0 THEN "" ELSE "a preconditioner was never released") /\ l' = l + 1 /\ UNCHANGED pvars
Next == Start \/ Opt \/ Val \/ Mat \/ Attach \/ SetUp \/ Use \/ Solve \/ Times \/ TreeGone \/ ListGone \/ End \/ (Done /\ UNCHANGED pvars)
===============================================================================
