SPECIFICATION Spec
CONSTANTS
  MaxD = 3
  Kinds = {"ok", "quiet", "part", "badhdr"}
  DropHeader = TRUE
  WaitSent = FALSE
INVARIANT Inv
PROPERTY Answered
CHECK_DEADLOCK FALSE
