SPECIFICATION Spec
CONSTANTS
  NK = 1
  Vals <- V_ab
  Pieces <- P_1
  Ttls <- T_012
  Deltas <- D_3
  Verbs <- O_ttl
  MaxTime = 3
  MaxTok = 3
  MaxLen = 3
INVARIANTS LookupExact TokensDistinct TokensOld NumbersInRange
PROPERTIES TokenDiscipline CasIffUnmodified RefusedChangesNothing Isolation KeepsAttributes NoRevival
CHECK_DEADLOCK FALSE
