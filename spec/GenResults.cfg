SPECIFICATION Spec
CONSTANTS
  Depth = 16
  MaxLen = 5
  Values = {2, 3, 4}
  GEN = TRUE
CHECK_DEADLOCK FALSE
