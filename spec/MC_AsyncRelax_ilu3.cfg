INCLUDE ring_field.cfgpart
 P = 5
 Thread = {1, 2}
 Chunk = 1
 N = 3
 Method = "ilu"
 NSweeps = 1
 Seeds = 1
INIT MCInit
NEXT RNext
INVARIANTS CountsBounded CountsComplete GoodIsExact Sequential SequentialExact
CHECK_DEADLOCK FALSE
