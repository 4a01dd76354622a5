SPECIFICATION Spec
CONSTANTS Cases = 3
 MaxIncs = 3
 MaxAgain = 1
 GEN = TRUE
CHECK_DEADLOCK FALSE
