SPECIFICATION Spec
CONSTANTS Points = {0, 1, 2}
 Depth = 9
 GEN = TRUE
CHECK_DEADLOCK FALSE
