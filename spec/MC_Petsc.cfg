SPECIFICATION Spec
CONSTANTS
  Nodes = {1}
  MaxChanges = 4
  MaxSteps = 6
  Faults = {}
INVARIANTS OneOwner NoDangling Listed Views RefusedStays Counted
PROPERTIES UsedCurrent Works
CHECK_DEADLOCK FALSE
