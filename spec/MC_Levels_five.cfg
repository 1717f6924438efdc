INCLUDE ring_field.cfgpart
 P = 5
 Thread = {1, 2}
 Waits = TRUE
 N = 5
 Method = "sgs"
 Seeds = 1
SPECIFICATION MCSpec
INVARIANTS LevelsOk NoRace Exact

CHECK_DEADLOCK FALSE
