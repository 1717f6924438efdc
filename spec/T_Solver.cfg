INCLUDE ring_float.cfgpart
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
