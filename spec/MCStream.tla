----------------------------- MODULE MCStream -----------------------------
EXTENDS StreamConn
LensA == <<2, 1, 3, 1>>
RepsA == <<1, 3, 0, 2>>
LensB == <<3, 2, 1, 4, 1, 2>>
RepsB == <<2, 0, 3, 1, 0, 4>>
===========================================================================
