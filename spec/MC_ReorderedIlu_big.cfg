INCLUDE ring_field.cfgpart
 P = 5
 N = 3
 Scaling = TRUE
SPECIFICATION Spec
INVARIANTS Right ExactSolves
CHECK_DEADLOCK FALSE
