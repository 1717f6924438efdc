INCLUDE ring_float.cfgpart
 RTransp <- TransposeBlock
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
