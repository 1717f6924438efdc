-------------------------------- MODULE Floats --------------------------------
(* Real arithmetic for trace validation.  A number is the pair <<hi, lo>> of   *)
(* the halves of an IEEE double; the operators below are evaluated by          *)
(* java/Floats.java when TLC runs.  What they mean is given by their names;    *)
(* those defined from others have their definition here and are overridden     *)
(* only for speed.  The exhaustive models do not use this module: they         *)
(* interpret the same specification over a finite field (module Field).        *)
EXTENDS Integers, Sequences
Uninterpreted == CHOOSE x \in {} : TRUE
FOfInt(i) == Uninterpreted
FRat(a, b) == Uninterpreted         \* a/b
FAdd(a, b) == Uninterpreted
FSub(a, b) == Uninterpreted
FMul(a, b) == Uninterpreted
FDiv(a, b) == Uninterpreted
FAbs(a) == Uninterpreted
FSqrt(a) == Uninterpreted
FLt(a, b) == Uninterpreted
FLe(a, b) == Uninterpreted
FEq(a, b) == Uninterpreted
FFinite(a) == Uninterpreted         \* neither infinite nor not-a-number
FMax(a, b) == IF FLt(a, b) THEN b ELSE a
FMin(a, b) == IF FLt(a, b) THEN a ELSE b
\* equal up to rounding: |a - b| <= 1e-9 * max(|a|, |b|, |m|), all finite
FCloseM(a, b, m) == /\ FFinite(a) /\ FFinite(b)
                    /\ FLe(FAbs(FSub(a, b)), FMul(FRat(1, 1000000000), FMax(FAbs(m), FMax(FAbs(a), FAbs(b)))))
FClose(a, b) == FCloseM(a, b, FOfInt(1))
FLoose(a, b) == Uninterpreted       \* as FClose with 1e-6
\* elementwise, relative to the largest entry of the expected sequence t (at least 1)
FAllClose(s, t) == Uninterpreted
F0 == <<0, 0>>
F1 == <<1072693248, 0>>
RECURSIVE FSum(_)
FSum(s) == IF s = <<>> THEN F0 ELSE FAdd(s[1], FSum(Tail(s)))
FDot(s, t) == FSum([i \in 1..Len(s) |-> FMul(s[i], t[i])])
\* bs x bs matrices, flat, row by row
FMatVec(m, x) == [r \in 1..Len(x) |-> FDot(SubSeq(m, (r-1)*Len(x) + 1, r*Len(x)), x)]
FMatMul(a, b) == Uninterpreted
FMatInv(a) == Uninterpreted
FVecAdd(x, y) == [i \in 1..Len(x) |-> FAdd(x[i], y[i])]
FVecSub(x, y) == [i \in 1..Len(x) |-> FSub(x[i], y[i])]
===============================================================================
