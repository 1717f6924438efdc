INCLUDE ring_field.cfgpart
 P = 5
 Thread = {1, 2}
 Chunk = 1
 N = 3
 PatternSet = "arrow"
 Sweeps = 1
 Sampled = 12
INIT FixInit
NEXT INext
PROPERTY StaysFixed
CHECK_DEADLOCK FALSE
