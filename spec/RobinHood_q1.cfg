SPECIFICATION Spec
CONSTANTS
  Keys = {1,2,3,4}
  Hashes = {1,3,7,15}
  Cap0 = 1
  Batch = 1
  Fill = 93
INVARIANT Inv
