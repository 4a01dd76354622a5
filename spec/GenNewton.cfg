SPECIFICATION Spec
CONSTANTS
 Budgets = {1, 2, 3}
 GEN = TRUE
INVARIANTS Earliest Budget Truthful
CHECK_DEADLOCK FALSE
