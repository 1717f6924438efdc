INCLUDE ring_field.cfgpart
 P = 5
 Thread = {1, 2}
 Chunk = 1
 N = 2
 Method = "gs"
 NSweeps = 3
 Seeds = 4
INIT MCInit
NEXT RNext
INVARIANTS CountsBounded CountsComplete GoodIsExact Sequential SequentialExact
CHECK_DEADLOCK FALSE
