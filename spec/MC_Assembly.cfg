INCLUDE ring_field.cfgpart
 P = 3
 N = 2
 Depth = 2
 Thread = {1, 2}
 Atomic = TRUE
 Undef <- MCUndef
INIT Init
NEXT Next
INVARIANTS Agree NothingLost
CHECK_DEADLOCK FALSE
