SPECIFICATION Spec
CONSTANTS Points = {0, 1, 2}
 Depth = 4
 GEN = FALSE
INVARIANTS HistoryIsCommits Pure
CHECK_DEADLOCK FALSE
