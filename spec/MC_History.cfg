CONSTANTS
 Objects = {1, 2}
 Depth = 6
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
