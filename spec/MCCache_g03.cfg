SPECIFICATION Spec
CONSTANTS
  NK = 2
  Vals <- V_ab
  Pieces <- P_1
  Ttls <- T_0
  Deltas <- D_3
  Verbs <- O_cas
  MaxTime = 0
  MaxTok = 3
  MaxLen = 3
INVARIANTS LookupExact TokensDistinct TokensOld NumbersInRange
PROPERTIES TokenDiscipline CasIffUnmodified RefusedChangesNothing Isolation KeepsAttributes NoRevival
CHECK_DEADLOCK FALSE
