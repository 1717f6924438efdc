INCLUDE ring_field.cfgpart
 P = 5
 N = 3
 Seeds = 12
INIT Init
NEXT Next
INVARIANTS PrefixRight NeedsBefore Whole Unique
CHECK_DEADLOCK FALSE
