SPECIFICATION Spec
CONSTANTS
  NK = 2
  Vals <- V_abc
  Pieces <- P_1
  Ttls <- T_01
  Deltas <- D_3
  Verbs <- All
  MaxTime = 2
  MaxTok = 4
  MaxLen = 3
INVARIANTS LookupExact TokensDistinct TokensOld NumbersInRange
PROPERTIES TokenDiscipline CasIffUnmodified RefusedChangesNothing Isolation KeepsAttributes NoRevival
CHECK_DEADLOCK FALSE
