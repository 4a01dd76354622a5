SPECIFICATION Spec
CONSTANTS
  Configs <- Every
  Ratios <- RatiosG
  MaxAttempts = 12
  GEN = TRUE
  TELL = FALSE
CHECK_DEADLOCK FALSE
