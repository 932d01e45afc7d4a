SPECIFICATION Spec
CONSTANTS
  Keys = {1,2,3,4,5}
  Hashes = {3,4}
  Cap0 = 2
  Batch = 1
  Fill = 93
INVARIANT Inv
