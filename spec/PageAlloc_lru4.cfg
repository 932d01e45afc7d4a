SPECIFICATION Spec
CONSTANTS
  NP = 4
  PageUnits = 1
  Sizes = {1}
  WithRealloc = FALSE
  Ghost = TRUE
  NoId = NoId
  Id = {a1, a2, a3, a4, a5}
INVARIANTS Tiling UniqueIds OnePlace Merged EmptyIsWhole LruPerm
PROPERTIES Stable EvictOnePage RecentSpared UsedInTurn
SYMMETRY Symm
VIEW View
CHECK_DEADLOCK FALSE
