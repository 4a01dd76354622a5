SPECIFICATION Spec
CONSTANTS
 Count = 36
 Detours = 6
 GEN = TRUE
CHECK_DEADLOCK FALSE
