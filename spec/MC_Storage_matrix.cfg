CONSTANTS
 Slot = {1, 2, 3}
 Depth = 5
 Level = "matrix"
 BS = 1
 Solvers = FALSE
 EmitAt = 99
 Unset <- MCUnset
INIT Init
NEXT Next
VIEW View
INVARIANTS Owned NothingLeft
PROPERTY ReleasedStays
CHECK_DEADLOCK FALSE
