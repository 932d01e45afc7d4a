SPECIFICATION Spec
CONSTANTS
  Lens <- LensB
  Reps <- RepsB
  Window = 3
  InFlight = 6
  Abort = TRUE
  Drain = TRUE
INVARIANT Inv
PROPERTY Answered
CHECK_DEADLOCK FALSE
