INCLUDE ring_float.cfgpart
 Thread = {1}
 Waits = TRUE
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
