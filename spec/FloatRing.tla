------------------------------ MODULE FloatRing -------------------------------
(* Dense bs x bs blocks of doubles, and vectors of bs doubles, as an instance  *)
(* of Ring.                                                                    *)
EXTENDS Floats
BAdd(a, b) == FVecAdd(a, b)
BSub(a, b) == FVecSub(a, b)
BMul(a, b) == FMatMul(a, b)
BInv(a) == FMatInv(a)
BZero(bs) == [k \in 1..(bs*bs) |-> F0]
BOne(bs) == [k \in 1..(bs*bs) |-> IF (k-1) % (bs+1) = 0 THEN F1 ELSE F0]
BSame(a, b) == FAllClose(a, b)
BVZero(bs) == [k \in 1..bs |-> F0]
BAct(a, x) == FMatVec(a, x)
\* diag(s) * a * diag(t)
BScale(s, a, t) == [k \in 1..Len(a) |-> FMul(FMul(s[((k-1) \div Len(s)) + 1], a[k]), t[((k-1) % Len(s)) + 1])]
BScaleV(s, x) == [k \in 1..Len(x) |-> FMul(s[k], x[k])]
BSide(a) == CHOOSE d \in 1..Len(a) : d * d = Len(a)
BDiagScale(a) == [r \in 1..BSide(a) |-> FDiv(F1, FSqrt(a[(r-1)*BSide(a) + r]))]
\* all entries finite and the inverse finite and not huge
BFinite(x) == \A k \in DOMAIN x : FFinite(x[k]) /\ FLe(FAbs(x[k]), FOfInt(1000000))
BRegular(a) == BFinite(a) /\ BFinite(FMatInv(a))
BDist(x, y) == FSqrt(FSum([k \in DOMAIN x |-> LET d == FVecSub(x[k], y[k]) IN FDot(d, d)]))
BTimes(s, x) == [k \in DOMAIN x |-> FMul(s, x[k])]
===============================================================================
