-------------------------------- MODULE Field ---------------------------------
(* The field of P elements (P prime) as an instance of Ring; block size ignored *)
EXTENDS Integers, FiniteSets
CONSTANT P
Elem == 0..(P-1)
GAdd(a, b) == (a + b) % P
GSub(a, b) == (a + P - b) % P
GMul(a, b) == (a * b) % P
GInv(a) == IF a = 0 THEN 0 ELSE CHOOSE b \in 1..(P-1) : (a * b) % P = 1
GZero(bs) == 0
GOne(bs) == 1
GSame(a, b) == a = b
GScaleV(s, x) == (s * x) % P
GScale(s, a, t) == (s * a * t) % P
\* 1/sqrt(a) when a is a non-zero square, 1 otherwise: only that it is invertible matters
GDiagScale(a) == IF \E b \in 1..(P-1) : (b * b * a) % P = 1 THEN CHOOSE b \in 1..(P-1) : (b * b * a) % P = 1 ELSE 1
GRegular(a) == a # 0
\* distance: the number of entries that differ
GDist(x, y) == Cardinality({k \in DOMAIN x : x[k] # y[k]})
GLess(a, b) == a < b
GTimes(a, b) == a * b
===============================================================================
