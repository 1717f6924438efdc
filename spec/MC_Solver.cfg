INCLUDE ring_field.cfgpart
 P = 5
 N = 2
 Depth = 4
 Seeds = 3
 Dense = FALSE
 Faults = {}
INIT MCInit
NEXT MCNext
INVARIANTS Faithful SolvesLU SolvesGS
CHECK_DEADLOCK FALSE
