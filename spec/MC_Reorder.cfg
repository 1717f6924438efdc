INCLUDE ring_field.cfgpart
 P = 5
 N = 2
 RTimes <- GMul
 NInv <- GInv
SPECIFICATION Spec
INVARIANT RowsSorted
INVARIANTS IsSolution Restored
PROPERTY Defined
CHECK_DEADLOCK FALSE
