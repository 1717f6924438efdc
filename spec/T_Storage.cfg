CONSTANTS
 Unset <- TUnset
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
