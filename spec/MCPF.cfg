SPECIFICATION Spec
CONSTANTS
  Configs <- All
  Ratios <- Ratios4
  MaxAttempts = 0
  GEN = FALSE
  TELL = FALSE
INVARIANTS TypeOK RecyclesBounded IncrementsBounded FacRange LockedControl EndReason FailReason
PROPERTIES FacLaw Advance Refines Terminates
CHECK_DEADLOCK FALSE
