INCLUDE ring_field.cfgpart
 P = 3
 N = 3
 Scaling = FALSE
SPECIFICATION Spec
INVARIANTS Right ExactSolves
CHECK_DEADLOCK FALSE
