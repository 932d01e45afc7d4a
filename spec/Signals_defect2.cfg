SPECIFICATION Spec
CONSTANTS MaxSig = 3
 MaxReq = 2
 Rearm = TRUE
 Busy = TRUE
INVARIANTS DataKept OnlyOnTerm GoodStatus PrintBound
PROPERTIES Stops PrintsOnce Serves
CHECK_DEADLOCK FALSE
