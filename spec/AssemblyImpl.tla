----------------------------- MODULE AssemblyImpl ------------------------------
(* How the library performs the calls of Assembly on its arrays: scanning rows. *)
(* It must do the same as Assembly.                                             *)
EXTENDS Assembly
Into(old, v, add) == IF add THEN Plus(old, v) ELSE v
\* point matrices: skip the columns before j0, then take w entries of the row
RECURSIVE Scan(_, _, _, _, _, _, _, _)
Scan(m, p, e, j0, w, k, b, add) ==
    IF p > e \/ k = w THEN m
    ELSE IF m.ci[p] < j0 THEN Scan(m, p + 1, e, j0, w, k, b, add)
    ELSE Scan([m EXCEPT !.a[p] = Into(@, b[k+1], add)], p + 1, e, j0, w, k + 1, b, add)
RECURSIVE ScanRows(_, _, _, _, _, _, _, _)
ScanRows(m, r, i0, j0, h, w, b, add) ==
    IF r = h THEN m
    ELSE ScanRows(Scan(m, m.rp[i0+r+1] + 1, m.rp[i0+r+2], j0, w, 0, SubSeq(b, r*w + 1, r*w + w), add), r + 1, i0, j0, h, w, b, add)
ISubmit(m, i0, j0, h, w, b) == ScanRows(m, 0, i0, j0, h, w, b, FALSE)
IUpdate(m, i0, j0, h, w, b) == ScanRows(m, 0, i0, j0, h, w, b, TRUE)
\* a diagonal block of a point matrix: entries next to the diagonal position
RECURSIVE DiagRows(_, _, _, _, _)
DiagRows(m, r, i0, h, b) ==
    IF r = h THEN m
    ELSE LET d == Diag(m, i0 + r) - r
             n == [m EXCEPT !.a = [p \in DOMAIN @ |-> IF p \in d..(d + h - 1) THEN Plus(@[p], b[r*h + (p - d) + 1]) ELSE @[p]]]
         IN DiagRows(n, r + 1, i0, h, b)
IUpdateDiag(m, i0, h, b) == DiagRows(m, 0, i0, h, b)
IDiagZero(m) == [m EXCEPT !.a = [p \in DOMAIN @ |-> IF \E i \in Rows(m) : p = Diag(m, i) THEN RZero(m.bs) ELSE @[p]]]
================================================================================
