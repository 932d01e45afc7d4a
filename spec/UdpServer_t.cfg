SPECIFICATION Spec
CONSTANTS
  MaxD = 5
  Kinds = {"ok", "quiet", "part", "badhdr"}
  DropHeader = TRUE
  WaitSent = TRUE
INVARIANT Inv
PROPERTY Answered
CHECK_DEADLOCK FALSE
