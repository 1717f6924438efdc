------------------------------- MODULE T_Columns -------------------------------
(* Column-oriented views made by the real code.                                 *)
EXTENDS Columns, Trace
Init == l = 1
Why(e) == IF e.crash # 0 THEN "the call crashed"
    ELSE IF ~ColumnPointers(e.m, e.cp, e.base) THEN "wrong column pointers"
    ELSE IF e.op = "csc" /\ (e.nc # e.m.n \/ ~RowsOfColumns(e.m, e.cp, e.base, e.ri)) THEN "wrong rows in a column"
    ELSE IF e.op = "csc" THEN FirstFailure(<<
        <<RowsRise(e.m, e.cp, e.base, e.ri), "rows do not increase">>,
        <<BlocksOfColumns(e.m, e.cp, e.base, e.ri, e.a), "wrong values">>,
        <<Diagonals(e.m, e.cp, e.base, e.ri, e.di), "a diagonal position is wrong">>,
        <<e.intact = 1, "the matrix was changed">> >>)
    ELSE FirstFailure(<<
        <<ListsOf(e.m, e.cp, e.ri, e.loc), "a column's list is wrong">>,
        <<e.intact = 1, "the matrix was changed">> >>)
Step == More /\ Judge(Why(Line)) /\ l' = l + 1
Next == Step \/ Done
================================================================================
