SPECIFICATION Spec
CONSTANTS
  Lens <- LensA
  Reps <- RepsA
  Window = 2
  InFlight = 4
  Abort = TRUE
  Drain = FALSE
INVARIANT Inv
PROPERTY Answered
CHECK_DEADLOCK FALSE
