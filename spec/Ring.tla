--------------------------------- MODULE Ring ---------------------------------
(* The arithmetic in which the specification is written: matrix entries are    *)
(* elements of a (possibly non-commutative) ring, vector entries elements of   *)
(* a module over it.  Exhaustive models instantiate it with a finite field     *)
(* (module Field), trace validation with dense blocks of doubles of any block  *)
(* size, 1 included (module FloatRing).                                        *)
CONSTANTS RAdd(_, _), RSub(_, _), RMul(_, _), RInv(_),
          RZero(_), ROne(_),            \* by block size
          RSame(_, _),                  \* equality, up to rounding for doubles
          VAdd(_, _), VSub(_, _), VAct(_, _), VZero(_), VSame(_, _),
          VTimes(_, _),                 \* scalar times vector
          RScale(_, _, _),              \* diag(s) * a * diag(t)
          RScaleV(_, _),                \* diag(s) * x
          RDiagScale(_),                \* the vector of 1/sqrt of the diagonal entries of a
          RRegular(_),                  \* safely invertible
          VDist(_, _),                  \* distance of two vectors, and how distances compare
          NLess(_, _), NTimes(_, _)
===============================================================================
