CONSTANTS
 N = 4
 BS = 2
 MaxRow = 2
 Sorted = TRUE
INIT Init
NEXT Next
INVARIANTS Read Converted
CHECK_DEADLOCK FALSE
