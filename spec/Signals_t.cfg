SPECIFICATION Spec
CONSTANTS MaxSig = 5
 MaxReq = 3
 Rearm = TRUE
 Busy = FALSE
INVARIANTS DataKept OnlyOnTerm GoodStatus PrintBound
PROPERTIES Stops PrintsOnce Serves
CHECK_DEADLOCK FALSE
