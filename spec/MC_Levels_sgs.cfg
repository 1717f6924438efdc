INCLUDE ring_field.cfgpart
 P = 5
 Thread = {1, 2}
 Waits = TRUE
 N = 4
 Method = "sgs"
 Seeds = 2
SPECIFICATION MCSpec
INVARIANTS LevelsOk NoRace Exact

CHECK_DEADLOCK FALSE
