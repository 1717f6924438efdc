INCLUDE ring_field.cfgpart
 P = 5
 Thread = {1, 2, 3}
 Chunk = 1
 N = 2
 Method = "gs"
 NSweeps = 2
 Seeds = 2
INIT MCInit
NEXT RNext
INVARIANTS CountsBounded CountsComplete GoodIsExact Sequential SequentialExact
CHECK_DEADLOCK FALSE
