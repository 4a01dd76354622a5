SPECIFICATION Spec
CONSTANTS
  Configs <- All
  Ratios <- Ratios3
  MaxAttempts = 0
  GEN = FALSE
  TELL = TRUE
INVARIANTS TypeOK Announced
CHECK_DEADLOCK FALSE
