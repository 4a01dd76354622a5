SPECIFICATION Spec
CONSTANTS Depth = 4
 GEN = TRUE
CHECK_DEADLOCK FALSE
