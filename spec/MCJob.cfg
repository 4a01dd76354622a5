SPECIFICATION Spec
CONSTANTS Cases = 2
 MaxIncs = 2
 MaxAgain = 1
 GEN = FALSE
INVARIANTS Chain Committed Order Bounded Ends Constant StartsAtZero OnePerCase AsScripted
PROPERTIES Immutable FailureLeavesNoTrace Terminates
CHECK_DEADLOCK FALSE
