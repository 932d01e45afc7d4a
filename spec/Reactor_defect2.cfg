SPECIFICATION Spec
CONSTANTS
  Clients = {1,2}
  MaxReq = 2
  Window = 1
  Faults = 1
  Shared = FALSE
  Blocking = TRUE
INVARIANT Inv
PROPERTY Served
CHECK_DEADLOCK FALSE
