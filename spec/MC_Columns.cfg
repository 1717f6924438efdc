CONSTANTS
 N = 3
INIT Init
NEXT Next
INVARIANTS Lists Compressed
CHECK_DEADLOCK FALSE
