------------------------------- MODULE T_Solver -------------------------------
(* Sessions with solver objects observed on the real code.  The state is the   *)
(* matrix as last changed and, per object, its options and what its latest     *)
(* compute prepared; every observed call must be a step of module Solver.      *)
EXTENDS Factory, FloatRing, Trace
VARIABLES cur, objs        \* objs[k]: <<>>, or [o, prep]
svars == <<cur, objs>>
Init == l = 1 /\ cur = <<>> /\ objs = <<>>
Supported(e) == SupportedBy(e.name, e.bs, e.rm = 1)
\* the values a triangular solve or product would overflow on are not constrained
VFin(x) == \A k \in DOMAIN x : BFinite(x[k])
Same(x, y) == ~VFin(y) \/ VecSame(x, y)
Start ==
    /\ More /\ Line.op = "start"
    /\ LET e == Line IN
       IF e.crash # 0 THEN Reject("a call crashed or did not return") /\ l' = After(l) /\ UNCHANGED svars
       ELSE cur' = e.m /\ objs' = [k \in 0..3 |-> <<>>] /\ l' = l + 1
New ==
    /\ More /\ Line.op = "new"
    /\ LET e == Line
           why == IF ~Supported(e) THEN FirstFailure(<<<<e.exc = 2, "an unsupported request was not refused as an invalid argument">>>>)
                  ELSE IF e.exc # 0 THEN "a supported request was refused"
                  ELSE FirstFailure(<<
                    <<e.dim = cur.n * cur.bs, "the object reports a wrong dimension">>,
                    <<(e.ra = 1) = RelaxAvailable(e.name), "the availability of relaxation is reported wrongly">>>>)
       IN IF why # "" THEN Reject(why) /\ l' = After(l) /\ UNCHANGED svars
          ELSE /\ objs' = [objs EXCEPT ![e.k] = IF Supported(e) THEN [o |-> [method |-> e.name, scaling |-> e.scaling = 1, napply |-> e.napply, ainit |-> e.ainit], prep |-> <<>>] ELSE <<>>]
               /\ l' = l + 1 /\ UNCHANGED cur
Val == /\ More /\ Line.op = "val" /\ cur' = [cur EXCEPT !.a = Line.a] /\ l' = l + 1 /\ UNCHANGED objs
Del == /\ More /\ Line.op = "del" /\ objs' = [objs EXCEPT ![Line.k] = <<>>]
       /\ Judge(IF Line.intact = 1 THEN "" ELSE "destroying an object touched the matrix it viewed") /\ l' = l + 1 /\ UNCHANGED cur
Cmp ==
    /\ More /\ Line.op = "cmp"
    /\ LET e == Line
           why == FirstFailure(<<<<e.exc = 0, "compute raised an error">>, <<e.intact = 1, "compute changed the matrix">>>>)
       IN IF why # "" THEN Reject(why) /\ l' = After(l) /\ UNCHANGED svars
          ELSE objs' = [objs EXCEPT ![e.k].prep = Prep(objs[e.k].o, cur)] /\ l' = l + 1 /\ UNCHANGED cur
\* check = 0: several threads race by design; the result is judged elsewhere
App ==
    /\ More /\ Line.op = "app"
    /\ LET e == Line
           ob == objs[e.k]
           refused == ob.o.method \in Ilu \ {"async_level_ilu0"} /\ ob.o.ainit = "none"
           why == IF refused THEN (IF e.exc = 1 THEN "" ELSE "applying with an unusable initial guess was not refused")
                  ELSE FirstFailure(<<
                    <<e.exc = 0, "apply raised an error">>,
                    <<e.intact = 1, "apply changed the matrix">>,
                    <<e.rsame = 1, "apply changed the right-hand side">>,
                    <<e.check = 1 => Same(e.z, ApplyOf(ob.o, ob.prep, cur, e.r, e.z0)), "the result is not the preconditioner's operator on the right-hand side">>>>)
       IN Judge(why) /\ l' = l + 1 /\ UNCHANGED svars
Rel ==
    /\ More /\ Line.op = "rel"
    /\ LET e == Line
           ob == objs[e.k]
           t == [ctol |-> e.ctol = 1, maxits |-> e.maxits, atol |-> e.atol, rtol |-> e.rtol, dtol |-> e.dtol]
           why == IF ~RelaxAvailable(ob.o.method)
                  THEN FirstFailure(<<<<e.intact = 1 /\ e.rsame = 1, "an unavailable relaxation changed its inputs">>,
                                      <<(ob.o.method = "none") = (e.exc = 0), "an unavailable relaxation neither raised an error nor did nothing">>,
                                      <<VecSame(e.z, e.r0), "an unavailable relaxation changed the vector">>>>)
                  ELSE FirstFailure(<<
                    <<e.exc = 0, "relaxation raised an error">>,
                    <<e.intact = 1, "relaxation changed the matrix">>,
                    <<e.rsame = 1, "relaxation changed the right-hand side">>,
                    <<e.check = 1 => Same(e.z, RelaxOf(ob.o, ob.prep, cur, e.r, e.r0, t)), "the result is not what the prescribed steps give">>,
                    <<e.fixed = 1 => Same(e.z, e.r0), "an exact solution did not stay unchanged">>>>)
       IN Judge(why) /\ l' = l + 1 /\ UNCHANGED svars
End == /\ More /\ Line.op = "end" /\ Judge(IF Line.intact = 1 THEN "" ELSE "the matrix was changed or released") /\ l' = l + 1 /\ UNCHANGED svars
Next == Start \/ New \/ Val \/ Del \/ Cmp \/ App \/ Rel \/ End \/ (Done /\ UNCHANGED svars)
===============================================================================
