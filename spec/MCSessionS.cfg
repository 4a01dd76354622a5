SPECIFICATION Spec
CONSTANTS
 Models = {1, 2}
 Streams = {1, 2}
 Defs = {1, 5, 6}
 Sets = {1}
 Levels = {0, 2}
 Depth = 8
 GEN = FALSE
INVARIANTS Determined Separate
PROPERTIES Isolated StreamKept OutputKept RunKeeps
VIEW View
CHECK_DEADLOCK FALSE
