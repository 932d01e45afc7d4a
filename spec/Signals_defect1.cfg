SPECIFICATION Spec
CONSTANTS MaxSig = 3
 MaxReq = 2
 Rearm = FALSE
 Busy = FALSE
INVARIANTS DataKept OnlyOnTerm GoodStatus PrintBound
PROPERTIES Stops PrintsOnce Serves
CHECK_DEADLOCK FALSE
