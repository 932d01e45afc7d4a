SPECIFICATION Spec
CONSTANTS
  Max = 4
  MaxOps = 8
  Bytes = {1, 2}
  Step = 2
  SafeGrow = TRUE
INVARIANT Inv
CHECK_DEADLOCK FALSE
