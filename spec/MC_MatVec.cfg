INCLUDE ring_field.cfgpart
 P = 3
 Thread = {1,2}
 Owner <- MCOwner
INIT Init
NEXT MVNext
INVARIANTS ProductExact Untouched
CHECK_DEADLOCK FALSE
