INCLUDE ring_field.cfgpart
 P = 3
 N = 4
 RTransp <- TransposeId
SPECIFICATION Spec
INVARIANTS Views ListsRight SystemsRight Solvable
CHECK_DEADLOCK FALSE
