SPECIFICATION Spec
CONSTANTS
  NP = 2
  PageUnits = 4
  Sizes = {1, 2, 3, 4}
  WithRealloc = TRUE
  Ghost = FALSE
  NoId = NoId
  Id = {a1, a2, a3, a4, a5}
INVARIANTS Tiling UniqueIds OnePlace Merged EmptyIsWhole LruPerm
PROPERTIES Stable EvictOnePage RecentSpared
SYMMETRY Symm
VIEW View
CHECK_DEADLOCK FALSE
