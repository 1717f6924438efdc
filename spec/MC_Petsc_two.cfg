SPECIFICATION Spec
CONSTANTS
  Nodes = {1, 2}
  MaxChanges = 3
  MaxSteps = 5
  Faults = {}
INVARIANTS OneOwner NoDangling Listed Views RefusedStays Counted
PROPERTIES UsedCurrent Works
CHECK_DEADLOCK FALSE
