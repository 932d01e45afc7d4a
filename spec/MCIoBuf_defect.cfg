SPECIFICATION Spec
CONSTANTS
  Max = 3
  MaxOps = 6
  Bytes = {1, 2}
  Step = 2
  SafeGrow = FALSE
INVARIANT Inv
CHECK_DEADLOCK FALSE
