INCLUDE ring_float.cfgpart
 Undef <- TUndef
 Objects = {1, 2}
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
