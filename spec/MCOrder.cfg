SPECIFICATION Spec
CONSTANTS
 Count = 8
 Detours = 2
 GEN = FALSE
INVARIANTS Confluent LabelFree
VIEW View
CHECK_DEADLOCK FALSE
