INCLUDE ring_field.cfgpart
 P = 5
 Thread = {1, 2}
 Chunk = 1
 N = 2
 Method = "gs"
 NSweeps = 2
 Seeds = 4
INIT FixInit
NEXT RNext
INVARIANTS CountsBounded CountsComplete Fixed
CHECK_DEADLOCK FALSE
