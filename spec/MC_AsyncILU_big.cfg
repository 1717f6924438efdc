INCLUDE ring_field.cfgpart
 P = 5
 Thread = {1, 2}
 Chunk = 1
 N = 2
 PatternSet = "dense"
 Sweeps = 3
 Sampled = 40
INIT MCInit
NEXT INext
INVARIANTS CountsBounded CountsComplete GoodIsExact AllGoodIsFactorization SequentialExact
CHECK_DEADLOCK FALSE
