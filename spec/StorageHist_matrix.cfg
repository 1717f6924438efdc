CONSTANTS
 Slot = {1, 2, 3, 4, 5}
 Depth = 16
 Level = "matrix"
 BS = 1
 Solvers = TRUE
 EmitAt = 16
 Unset <- MCUnset
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
