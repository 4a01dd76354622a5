SPECIFICATION Spec
CONSTANTS
 Depth = 12
 Nodes = 9
 GEN = TRUE
CHECK_DEADLOCK FALSE
