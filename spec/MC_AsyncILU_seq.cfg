INCLUDE ring_field.cfgpart
 P = 5
 Thread = {1}
 Chunk = 1
 N = 3
 PatternSet = "dense"
 Sweeps = 1
 Sampled = 40
INIT MCInit
NEXT INext
INVARIANTS CountsBounded CountsComplete GoodIsExact AllGoodIsFactorization SequentialExact
CHECK_DEADLOCK FALSE
