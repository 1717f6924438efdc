INCLUDE ring_float.cfgpart
 Thread = {1}
 Owner <- MCOwner
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
