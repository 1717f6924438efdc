CONSTANTS
 Objects = {1, 2}
 Depth = 4
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
