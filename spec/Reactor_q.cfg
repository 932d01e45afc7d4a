SPECIFICATION Spec
CONSTANTS
  Clients = {1,2,3}
  MaxReq = 1
  Window = 1
  Faults = 1
  Shared = FALSE
  Blocking = FALSE
INVARIANT Inv
PROPERTY Served
CHECK_DEADLOCK FALSE
