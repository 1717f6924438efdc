INCLUDE ring_field.cfgpart
 P = 5
 Thread = {1, 2}
 Waits = TRUE
 N = 3
 Method = "sgs"
 Seeds = 2
SPECIFICATION MCSpec
INVARIANTS LevelsOk NoRace Exact
PROPERTY Termination
CHECK_DEADLOCK FALSE
