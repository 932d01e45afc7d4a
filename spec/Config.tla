------------------------------ MODULE Config ------------------------------
(* Which configurations are valid.  All valid sizes are powers of two, so   *)
(* a size is given by its decimal text and judged by its binary logarithm.  *)
EXTENDS BigNum

\* powers of two (MCConfig checks the table)
Pow2Table == <<
    <<1>>,
    <<2>>,
    <<4>>,
    <<8>>,
    <<1,6>>,
    <<3,2>>,
    <<6,4>>,
    <<1,2,8>>,
    <<2,5,6>>,
    <<5,1,2>>,
    <<1,0,2,4>>,
    <<2,0,4,8>>,
    <<4,0,9,6>>,
    <<8,1,9,2>>,
    <<1,6,3,8,4>>,
    <<3,2,7,6,8>>,
    <<6,5,5,3,6>>,
    <<1,3,1,0,7,2>>,
    <<2,6,2,1,4,4>>,
    <<5,2,4,2,8,8>>,
    <<1,0,4,8,5,7,6>>,
    <<2,0,9,7,1,5,2>>,
    <<4,1,9,4,3,0,4>>,
    <<8,3,8,8,6,0,8>>,
    <<1,6,7,7,7,2,1,6>>,
    <<3,3,5,5,4,4,3,2>>,
    <<6,7,1,0,8,8,6,4>>,
    <<1,3,4,2,1,7,7,2,8>>,
    <<2,6,8,4,3,5,4,5,6>>,
    <<5,3,6,8,7,0,9,1,2>>,
    <<1,0,7,3,7,4,1,8,2,4>>,
    <<2,1,4,7,4,8,3,6,4,8>>,
    <<4,2,9,4,9,6,7,2,9,6>>,
    <<8,5,8,9,9,3,4,5,9,2>>,
    <<1,7,1,7,9,8,6,9,1,8,4>>,
    <<3,4,3,5,9,7,3,8,3,6,8>>,
    <<6,8,7,1,9,4,7,6,7,3,6>>,
    <<1,3,7,4,3,8,9,5,3,4,7,2>>,
    <<2,7,4,8,7,7,9,0,6,9,4,4>>,
    <<5,4,9,7,5,5,8,1,3,8,8,8>>,
    <<1,0,9,9,5,1,1,6,2,7,7,7,6>>,
    <<2,1,9,9,0,2,3,2,5,5,5,5,2>>,
    <<4,3,9,8,0,4,6,5,1,1,1,0,4>>,
    <<8,7,9,6,0,9,3,0,2,2,2,0,8>>,
    <<1,7,5,9,2,1,8,6,0,4,4,4,1,6>>,
    <<3,5,1,8,4,3,7,2,0,8,8,8,3,2>>,
    <<7,0,3,6,8,7,4,4,1,7,7,6,6,4>>,
    <<1,4,0,7,3,7,4,8,8,3,5,5,3,2,8>>,
    <<2,8,1,4,7,4,9,7,6,7,1,0,6,5,6>>,
    <<5,6,2,9,4,9,9,5,3,4,2,1,3,1,2>>,
    <<1,1,2,5,8,9,9,9,0,6,8,4,2,6,2,4>>,
    <<2,2,5,1,7,9,9,8,1,3,6,8,5,2,4,8>>,
    <<4,5,0,3,5,9,9,6,2,7,3,7,0,4,9,6>>,
    <<9,0,0,7,1,9,9,2,5,4,7,4,0,9,9,2>>,
    <<1,8,0,1,4,3,9,8,5,0,9,4,8,1,9,8,4>>,
    <<3,6,0,2,8,7,9,7,0,1,8,9,6,3,9,6,8>>,
    <<7,2,0,5,7,5,9,4,0,3,7,9,2,7,9,3,6>>,
    <<1,4,4,1,1,5,1,8,8,0,7,5,8,5,5,8,7,2>>,
    <<2,8,8,2,3,0,3,7,6,1,5,1,7,1,1,7,4,4>>,
    <<5,7,6,4,6,0,7,5,2,3,0,3,4,2,3,4,8,8>>,
    <<1,1,5,2,9,2,1,5,0,4,6,0,6,8,4,6,9,7,6>>,
    <<2,3,0,5,8,4,3,0,0,9,2,1,3,6,9,3,9,5,2>>,
    <<4,6,1,1,6,8,6,0,1,8,4,2,7,3,8,7,9,0,4>>,
    <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>>>
Pow2(k) == Pow2Table[k + 1]
\* binary logarithm of a power of two below 2^64, otherwise -1
Log2(d) == LET n == Norm(d) IN
           IF \E k \in 1..64 : Pow2Table[k] = n THEN (CHOOSE k \in 1..64 : Pow2Table[k] = n) - 1 ELSE -1

MinPage == 8        \* 256 bytes
MaxPage == 31
MaxDict == 31
\* logarithms of memory, page, table size
Valid(m, p, h) == /\ m >= 0 /\ p >= 0 /\ h >= 0
                  /\ p >= MinPage /\ p <= MaxPage
                  /\ m >= p + 2
                  /\ h <= MaxDict
NumPages(m, p) == m - p     \* logarithm

-----------------------------------------------------------------------------
(* Daemon options.  Texts are sequences of byte codes.                       *)
(* An option is: "yes" with a logarithm, "no" (has to be refused) or         *)
(* "either" (the documentation does not say).                                *)
Unit(c) == CASE c = 75 -> 10 [] c = 77 -> 20 [] c = 71 -> 30 [] OTHER -> -1
\* memory amounts: decimal number, optionally K, M, G; megabytes by default
Amount(t) ==
    IF Len(t) = 0 THEN [r |-> "no", l |-> -1]
    ELSE LET u == Unit(t[Len(t)])
             body == IF u >= 0 THEN SubSeq(t, 1, Len(t) - 1) ELSE t
             unit == IF u >= 0 THEN u ELSE 20
         IN IF Len(body) > 1 /\ body[1] = 43 /\ IsDigits(Tail(body)) THEN [r |-> "either", l |-> -1]
            ELSE IF ~IsDigits(body) THEN [r |-> "no", l |-> -1]
            ELSE LET k == Log2(ToNum(body)) IN
                 IF k < 0 \/ k + unit > 63 THEN [r |-> "no", l |-> -1] ELSE [r |-> "yes", l |-> k + unit]
Number(t) ==
    IF Len(t) > 1 /\ t[1] \in {43, 45} /\ IsDigits(Tail(t)) THEN [r |-> IF t[1] = 45 /\ Len(t) < 15 THEN "no" ELSE "either", l |-> -1]
    ELSE IF ~IsDigits(t) THEN [r |-> "no", l |-> -1]
    ELSE LET k == Log2(ToNum(t)) IN IF k < 0 THEN [r |-> "no", l |-> -1] ELSE [r |-> "yes", l |-> k]

\* more memory than this may not be there
Ample == 33
Verdict(m, p, h) ==
    IF "no" \in {m.r, p.r, h.r} THEN "no"
    ELSE IF "either" \in {m.r, p.r, h.r} THEN "either"
    ELSE IF ~Valid(m.l, p.l, h.l) THEN "no"
    ELSE IF m.l > Ample THEN "either" ELSE "yes"

DefaultMem == [r |-> "yes", l |-> 26]
DefaultPage == [r |-> "yes", l |-> 20]
DefaultDict == [r |-> "yes", l |-> 16]
=============================================================================
