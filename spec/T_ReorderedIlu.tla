---------------------------- MODULE T_ReorderedIlu ----------------------------
(* Histories of the real solver object; the state is what the specification's   *)
(* object holds.                                                                *)
EXTENDS ReorderedIlu, FloatRing, Trace
VARIABLES m, prep, r, c
tvars == <<m, prep, r, c>>
Init == l = 1 /\ m = <<>> /\ prep = <<>> /\ r = <<>> /\ c = <<>>
Fresh(e) == e.step = 1
M0(e) == IF Fresh(e) THEN e.m ELSE m
M2(e) == IF e.op = "vals" THEN [M0(e) EXCEPT !.a = e.a] ELSE M0(e)
R0(e) == IF Fresh(e) THEN <<>> ELSE r
C0(e) == IF Fresh(e) THEN <<>> ELSE c
R2(e) == IF e.op = "compute" /\ e.hr = 1 THEN e.r ELSE R0(e)
C2(e) == IF e.op = "compute" /\ e.hc = 1 THEN e.c ELSE C0(e)
Why(e) == IF e.crash # 0 THEN "the call crashed"
    ELSE IF e.intact # 1 THEN "the matrix was changed"
    ELSE IF e.op = "compute" /\ e.calls < 1 THEN "no ordering was computed"
    ELSE IF e.op = "apply" THEN FirstFailure(<<
        <<e.same = 1, "the right-hand side was changed">>,
        <<e.exact = 1 => VecSame(e.z, ApplyOrdered(m, prep, r, c, TRUE, e.b)), "wrong result">> >>)
    ELSE IF e.op = "relax" /\ e.threw = 0 THEN "a relaxation that does not exist did not fail"
    ELSE ""
Step == More /\ LET e == Line IN LET w == Why(e) IN
    /\ Judge(w)
    /\ IF w = "" THEN /\ m' = M2(e) /\ r' = R2(e) /\ c' = C2(e) /\ l' = l + 1
                      /\ prep' = IF e.op = "compute" THEN PreparedOrdered(M0(e), R2(e), C2(e), TRUE) ELSE IF Fresh(e) THEN <<>> ELSE prep
       ELSE l' = After(l) /\ UNCHANGED tvars
Next == Step \/ (Done /\ UNCHANGED tvars)
===============================================================================
