INCLUDE ring_float.cfgpart
 RTimes <- BTimes
 NInv <- TNInv
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
