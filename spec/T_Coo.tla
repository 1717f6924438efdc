--------------------------------- MODULE T_Coo ---------------------------------
(* Files read and converted by the real code.                                   *)
EXTENDS Coo, Trace
Init == l = 1
Zero == <<0, 0>>
Shape(e) == LET nb == e.nr \div e.bs IN FirstFailure(<<
    <<e.h = <<nb, e.nnzb, e.nnzb>> /\ e.dim = e.nr, "wrong sizes">>,
    <<PointersOf(e.es, e.bs, nb, e.rp), "wrong row pointers">> >>)
Converted(e) == LET nb == e.nr \div e.bs IN FirstFailure(<<
    <<ColumnsOf(e.es, e.bs, nb, e.rp, e.ci), "wrong columns">>,
    <<ColumnsRise(nb, e.rp, e.ci), "columns do not increase">>,
    <<ValuesOf(e.es, e.bs, e.rm = 1, nb, e.rp, e.ci, e.a, Zero), "wrong values">>,
    <<DiagonalOf(e.es, e.bs, nb, e.rp, e.ci, e.di), "a diagonal position is wrong">>,
    <<e.re = Tail(e.rp), "wrong row ends">> >>)
ReadBack(e) == FirstFailure(<<
    <<e.size = <<e.nr, e.nc, Len(e.es)>>, "wrong dimensions read">>,
    <<Len(e.rd) = Len(e.es) /\ ToSet(e.rd) = ToSet(e.es), "the entries read are not those of the file">>,
    <<PointersOf(e.es, 1, e.nr, e.erp) /\ \A k \in 1..(Len(e.rd) - 1) : e.rd[k][1] < e.rd[k+1][1] \/ (e.rd[k][1] = e.rd[k+1][1] /\ e.rd[k][2] < e.rd[k+1][2]), "the entries read are not in order">> >>)
Why(e) ==
    IF e.crash # 0 THEN "the call crashed"
    ELSE IF e.op = "dense" THEN (IF e.out = e.v THEN "" ELSE "wrong values")
    ELSE IF ~Accepted(e.header) THEN (IF e.refused = 1 /\ e.accepted = 0 THEN "" ELSE "a header was not refused")
    ELSE IF e.refused # 0 \/ e.accepted # 1 THEN "a header was refused"
    ELSE LET r == IF e.direct = 1 THEN "" ELSE ReadBack(e) IN IF r # "" THEN r
    ELSE LET s == Shape(e) IN IF s # "" THEN s ELSE Converted(e)
Step == More /\ Judge(Why(Line)) /\ l' = l + 1
Next == Step \/ Done
================================================================================
