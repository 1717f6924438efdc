------------------------------- MODULE T_Levels -------------------------------
(* Levels computed by the real code: any valid schedule is accepted.           *)
EXTENDS Levels, FloatRing, Trace
Init == l = 1 /\ LevelInit([n |-> 0, bs |-> 1, rp |-> <<0>>, ci |-> <<>>, a |-> <<>>], <<[x0 |-> <<>>]>>, <<>>)
Why(e) == IF e.crash # 0 THEN "computing the levels crashed"
          ELSE FirstFailure(<<
            <<ValidLevels(e.m, e.levels), "the levels are not consecutive non-empty groups of mutually independent rows">>,
            <<e.intact = 1, "the matrix was changed">> >>)
Step == More /\ Judge(Why(Line)) /\ l' = l + 1 /\ UNCHANGED lvars
Next == Step \/ (Done /\ UNCHANGED lvars)
===============================================================================
