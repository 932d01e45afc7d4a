SPECIFICATION Spec
CONSTANTS
  Keys = {1,2,3,4,5,6,7}
  Hashes = {3,7}
  Cap0 = 4
  Batch = 2
  Fill = 93
INVARIANT Inv
