INCLUDE ring_field.cfgpart
 P = 5
 N = 2
 Scaling = TRUE
SPECIFICATION Spec
INVARIANTS Right ExactSolves
CHECK_DEADLOCK FALSE
