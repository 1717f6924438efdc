INCLUDE ring_field.cfgpart
 P = 5
 N = 4
 Seeds = 4
INIT Init
NEXT Next
INVARIANTS PrefixRight NeedsBefore Whole Unique
CHECK_DEADLOCK FALSE
