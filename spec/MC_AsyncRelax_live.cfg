INCLUDE ring_field.cfgpart
 P = 5
 Thread = {1, 2}
 Chunk = 1
 N = 2
 Method = "ilu"
 NSweeps = 1
 Seeds = 1
SPECIFICATION FairSpec
PROPERTY Termination
CHECK_DEADLOCK FALSE
