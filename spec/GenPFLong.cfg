SPECIFICATION Spec
CONSTANTS
  Configs <- Long
  Ratios <- RatiosG
  MaxAttempts = 20
  GEN = TRUE
  TELL = FALSE
CHECK_DEADLOCK FALSE
