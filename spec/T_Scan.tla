-------------------------------- MODULE T_Scan ---------------------------------
(* Results of the scans, sorts and searches of the real code.                   *)
EXTENDS Scan, Trace
Init == l = 1
Bs2(e) == e.bs * e.bs
BlocksOf(v, b) == [k \in 1..(Len(v) \div b) |-> [q \in 1..b |-> v[(k - 1) * b + q]]]
Exact(e) == CASE e.op = "psum" -> e.out = Exclusive(e.c)
              [] e.op = "incl" -> e.out = Inclusive(e.c)
              [] e.op = "sort" -> Len(e.out) = Len(e.c) /\ Len(e.w) = Len(e.v) /\ SortedInto(e.c, BlocksOf(e.v, Bs2(e)), e.out, BlocksOf(e.w, Bs2(e)))
              [] e.op = "find" -> e.out = <<Found(e.c, e.from, e.to, e.x, e.before)>>
Why(e) == IF e.crash # 0 THEN "the call crashed" ELSE FirstFailure(<<
    <<e.guard = 1, "memory outside the array was changed">>,
    <<e.unchanged = 1, "the input was changed">>,
    <<Exact(e), "wrong result">>,
    <<e.again = 1, "the same call gave another result">> >>)
Step == More /\ Judge(Why(Line)) /\ l' = l + 1
Next == Step \/ Done
================================================================================
