SPECIFICATION Spec
CONSTANTS
  NK = 1
  Vals <- V_ab
  Pieces <- P_1
  Ttls <- T_01
  Deltas <- D_3
  Verbs <- O_cond
  MaxTime = 2
  MaxTok = 4
  MaxLen = 3
INVARIANTS LookupExact TokensDistinct TokensOld NumbersInRange
PROPERTIES TokenDiscipline CasIffUnmodified RefusedChangesNothing Isolation KeepsAttributes NoRevival
CHECK_DEADLOCK FALSE
