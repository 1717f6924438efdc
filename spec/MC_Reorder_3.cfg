INCLUDE ring_field.cfgpart
 P = 3
 N = 3
 RTimes <- GMul
 NInv <- GInv
SPECIFICATION Spec
INVARIANT RowsSorted
INVARIANTS IsSolution Restored
PROPERTY Defined
CHECK_DEADLOCK FALSE
