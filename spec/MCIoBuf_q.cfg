SPECIFICATION Spec
CONSTANTS
  Max = 3
  MaxOps = 6
  Bytes = {1, 2}
  Step = 2
  SafeGrow = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
