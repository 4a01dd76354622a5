SPECIFICATION Spec
CONSTANTS
 Models = {1, 2}
 Streams = {1, 2}
 Defs = {1, 2, 3, 4, 5, 6, 7}
 Sets = {1, 2, 3}
 Levels = {0, 1, 2, 3}
 Depth = 30
 GEN = TRUE
CHECK_DEADLOCK FALSE
