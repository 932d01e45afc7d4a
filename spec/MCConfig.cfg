SPECIFICATION Spec
INVARIANTS TableOK LogOK AmountOK ValidOK
CHECK_DEADLOCK FALSE
