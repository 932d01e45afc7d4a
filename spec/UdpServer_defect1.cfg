SPECIFICATION Spec
CONSTANTS
  MaxD = 3
  Kinds = {"ok", "quiet", "part", "badhdr"}
  DropHeader = FALSE
  WaitSent = TRUE
INVARIANT Inv
PROPERTY Answered
CHECK_DEADLOCK FALSE
