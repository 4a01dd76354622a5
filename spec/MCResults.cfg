SPECIFICATION Spec
CONSTANTS
  Depth = 4
  MaxLen = 3
  Values = {2, 3}
  GEN = FALSE
INVARIANTS Forces
PROPERTIES Snapshots
CHECK_DEADLOCK FALSE
