INCLUDE ring_field.cfgpart
 P = 5
 Thread = {1}
 Chunk = 2
 N = 3
 Method = "ilu"
 NSweeps = 2
 Seeds = 3
INIT MCInit
NEXT RNext
INVARIANTS CountsBounded CountsComplete GoodIsExact Sequential SequentialExact
CHECK_DEADLOCK FALSE
