SPECIFICATION Spec
CONSTANTS
 Budgets = {1, 2, 3, 4}
 GEN = FALSE
INVARIANTS Earliest Budget Truthful
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
