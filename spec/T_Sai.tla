--------------------------------- MODULE T_Sai --------------------------------
EXTENDS Sai, FloatRing, Trace
TransposeBlock(a) == LET b == BSide(a) IN [k \in 1..(b*b) |-> a[((k-1) % b) * b + ((k-1) \div b) + 1]]
Init == l = 1
Lists(e) == [bpos |-> e.bpos, browind |-> e.browind, bcolptr |-> e.bcolptr, sairowptr |-> e.sairowptr, nvars |-> e.nvars, neqns |-> e.neqns, central |-> e.central]
WhyView(e) == LET v == View(e.m, e.w) IN FirstFailure(<<
    <<e.nb = e.m.n /\ e.nst = Nnz(e.m), "the view has other dimensions than the matrix">>,
    <<e.rb = v.rb, "a row of the view starts elsewhere">>,
    <<e.re = v.re, "a row of the view ends elsewhere">>,
    <<e.nnz = Count(v), "the view reports a wrong number of entries">>,
    <<e.shared = 1, "the view does not refer to the matrix's entries">>,
    <<e.own = 1, "the view uses the row pointers of the matrix">> >>)
WhyCopy(e) == FirstFailure(<<
    <<e.nb = e.m.n /\ e.nst = Nnz(e.m) /\ e.nnz = Nnz(e.m), "the copy has other dimensions">>,
    <<e.rp = e.m.rp /\ e.re = Tail(e.m.rp) /\ e.ci = e.m.ci, "the copy has another structure">>,
    <<e.di = [k \in 1..e.m.n |-> Diag(e.m, k-1) - 1], "the copy has other diagonal positions">>,
    <<e.a = e.m.a, "the copy has other values">> >>)
WhySai(e) == LET v == View(e.m, e.w) inc == e.inc = 1 IN
    IF ~ShapeOk(v, Lists(e)) THEN "the pattern is malformed"
    ELSE FirstFailure(<<
        <<\A i \in Rows(v) : LocalOk(v, Lists(e), i, inc), "the pattern of a row names the wrong entries">>,
        <<e.hass = 1 => ApproxInverse(v, e.s, inc), "the approximate inverse does not satisfy its equations">> >>)
Why(e) == IF e.crash # 0 THEN "the call crashed"
    ELSE IF e.intact # 1 THEN "the matrix was changed"
    ELSE CASE e.op = "view" -> WhyView(e) [] e.op = "copy" -> WhyCopy(e) [] e.op = "sai" -> WhySai(e)
Step == More /\ Judge(Why(Line)) /\ l' = IF Why(Line) = "" THEN l + 1 ELSE After(l)
Next == Step \/ Done
===============================================================================
