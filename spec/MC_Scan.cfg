CONSTANTS
 MaxN = 7
 MaxT = 4
 WithBarrier = TRUE
INIT Init
NEXT Next
INVARIANT Right
CHECK_DEADLOCK FALSE
