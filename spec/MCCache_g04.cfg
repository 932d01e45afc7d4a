SPECIFICATION Spec
CONSTANTS
  NK = 1
  Vals <- V_num
  Pieces <- P_none
  Ttls <- T_01
  Deltas <- D_num
  Verbs <- O_arith
  MaxTime = 1
  MaxTok = 3
  MaxLen = 30
INVARIANTS LookupExact TokensDistinct TokensOld NumbersInRange
PROPERTIES TokenDiscipline CasIffUnmodified RefusedChangesNothing Isolation KeepsAttributes NoRevival
CHECK_DEADLOCK FALSE
