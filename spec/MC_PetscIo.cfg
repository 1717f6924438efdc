CONSTANTS
 N = 4
 BS = 2
 MaxEntries = 4
 ByRows = FALSE
INIT Init
NEXT Next
INVARIANTS Complete SoFar
CHECK_DEADLOCK FALSE
