SPECIFICATION Spec
CONSTANTS
  NK = 2
  Vals <- V_ab
  Pieces <- P_1
  Ttls <- T_01
  Deltas <- D_3
  Verbs <- All
  MaxTime = 2
  MaxTok = 3
  MaxLen = 2
INVARIANTS LookupExact TokensDistinct TokensOld NumbersInRange
PROPERTIES TokenDiscipline CasIffUnmodified RefusedChangesNothing Isolation KeepsAttributes NoRevival
CHECK_DEADLOCK FALSE
