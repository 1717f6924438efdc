CONSTANTS
 N = 3
 BS = 1
 MaxRow = 3
 Sorted = FALSE
INIT Init
NEXT Next
INVARIANTS Read Converted
CHECK_DEADLOCK FALSE
