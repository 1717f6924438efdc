INCLUDE ring_float.cfgpart
 Thread <- MCThread
 Chunk = 1
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
