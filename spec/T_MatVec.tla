------------------------------- MODULE T_MatVec -------------------------------
(* Products observed on the real code.  A line holds the matrix, the vectors,  *)
(* the result and the arrays read back afterwards.  Whatever the schedule, the *)
(* only result MatVec allows at Return is Product, so the steps of one product *)
(* are composed into one.                                                      *)
EXTENDS MatVec, FloatRing, Trace
MCOwner(k, n) == 1
Init == /\ l = 1 /\ m = <<>> /\ form = "" /\ alpha = F0 /\ beta = F0 /\ x = <<>> /\ y0 = <<>> /\ z = <<>>
        /\ todo = {} /\ phase = "end"
Observed(e) == /\ m' = e.m /\ form' = e.form /\ alpha' = e.alpha /\ beta' = e.beta
               /\ x' = e.x /\ y0' = e.y /\ z' = e.z /\ todo' = {} /\ phase' = "end"
Why(e) == FirstFailure(<<
    <<e.crash = 0, "the product crashed">>,
    <<Len(e.z) = e.m.n /\ e.dim = e.m.n * e.m.bs, "wrong dimension">>,
    <<ProductExact', "the product is not the stored matrix times the vector">>,
    <<e.intact = 1, "the matrix or an input vector was changed">> >>)
Step == /\ More /\ Observed(Line) /\ l' = l + 1
        /\ Judge(Why(Line))
Next == Step \/ (Done /\ UNCHANGED mvvars)
===============================================================================
