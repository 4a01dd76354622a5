SPECIFICATION Spec
CONSTANTS
 Depth = 3
 Nodes = 2
 GEN = FALSE
INVARIANT Laws
PROPERTIES Kept OneOnly ResultsKept
CHECK_DEADLOCK FALSE
